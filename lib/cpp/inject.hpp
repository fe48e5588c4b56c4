/*
 * Fault injection at the boundary between classes: the link uses --wrap on the two HMAC functions and public key derivation, so a test
 * can replace what the signing and key derivation code sees. If that code no longer calls them through these
 * symbols, 'used' stays false and the test skips what it cannot inject.
 */
#pragma once
#include <cstdint>
namespace inject {
extern thread_local bool active;      // Replace results?
extern thread_local bool used;        // Was a result replaced?
extern thread_local uint8_t out[64];  // What to return
extern thread_local bool pointActive;    // Replace what public key derivation gives?
extern thread_local bool pointUsed;
extern thread_local uint8_t point[64];   // Its coordinates, big-endian
}

/* Calls made in a Java process: see Server.java */
#pragma once
#include "opgen.hpp"

// The operation's name in Java; null if there is none
const char *javaName(int op);
// The line that asks for a call, and the outcome that an answer shows
std::string javaRequest(const opgen::Call &c);
std::string javaShown(const opgen::Call &c, const std::string &answer);

"""Compares the reference models (C++ and Java) with Python's integers and hashlib, and with published vectors."""
import hashlib
import hmac
import subprocess
import build

P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
A58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
A32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"


def padd(a, b):
	if a is None or b is None:
		return b if a is None else a
	if a[0] == b[0]:
		if (a[1] + b[1]) % P == 0:
			return None
		m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
	else:
		m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
	x = (m * m - a[0] - b[0]) % P
	return x, (m * (a[0] - x) - a[1]) % P


def pmul(a, k):
	r = None
	while k:
		if k & 1:
			r = padd(r, a)
		a = padd(a, a)
		k >>= 1
	return r


def keccak256(m):
	rot = lambda v, s: (v << s | v >> (64 - s)) & (2**64 - 1) if s else v
	def f(a):
		r = 1
		for _ in range(24):
			c = [a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4] for x in range(5)]
			d = [c[(x + 4) % 5] ^ rot(c[(x + 1) % 5], 1) for x in range(5)]
			a = [[a[x][y] ^ d[x] for y in range(5)] for x in range(5)]
			x, y, cur = 1, 0, a[1][0]
			for t in range(24):
				x, y = y, (2 * x + 3 * y) % 5
				cur, a[x][y] = a[x][y], rot(cur, (t + 1) * (t + 2) // 2 % 64)
			for y in range(5):
				t = [a[x][y] for x in range(5)]
				for x in range(5):
					a[x][y] = t[x] ^ (~t[(x + 1) % 5] & t[(x + 2) % 5])
			for j in range(7):
				r = (r << 1 ^ (r >> 7) * 0x71) % 256
				if r & 2:
					a[0][0] ^= 1 << ((1 << j) - 1)
		return a
	a = [[0] * 5 for _ in range(5)]
	b = bytearray(m + b"\x01" + bytes(-(len(m) + 1) % 136))
	b[-1] |= 0x80
	for o in range(0, len(b), 136):
		for i in range(17):
			a[i % 5][i // 5] ^= int.from_bytes(b[o + 8 * i:o + 8 * i + 8], "little")
		a = f(a)
	return b"".join(a[i][0].to_bytes(8, "little") for i in range(4))


def b58(b):
	n, r = int.from_bytes(b, "big"), ""
	while n:
		n, k = divmod(n, 58)
		r = A58[k] + r
	return "1" * (len(b) - len(b.lstrip(b"\0"))) + r


def polymod(v):  # BIP 173
	chk = 1
	for x in v:
		b = chk >> 25
		chk = (chk & 0x1ffffff) << 5 ^ x
		for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)):
			chk ^= g if b >> i & 1 else 0
	return chk


def bech32(h, d):
	e = [ord(x) >> 5 for x in h] + [0] + [ord(x) & 31 for x in h]
	c = polymod(e + d + [0] * 6) ^ 1
	return h + "1" + "".join(A32[x] for x in d + [c >> 5 * (5 - i) & 31 for i in range(6)])


def msg(n):
	return bytes((i * 7 + n) & 255 for i in range(n))


def sign(d, z, k):
	r = pmul(G, k)[0] % N
	s = pow(k, -1, N) * (z + r * d) % N
	return r, min(s, N - s)


def verify(q, z, r, s):
	w = pow(s, -1, N)
	p = padd(pmul(G, z * w % N), pmul(q, r * w % N))
	return p is not None and p[0] % N == r


def expected():
	import math
	e = {}
	s256 = lambda b: hashlib.sha256(b).digest()
	try:
		hashlib.new("ripemd160")
		rip = lambda m: hashlib.new("ripemd160", m).hexdigest()
	except ValueError:
		rip = None
	n = 0
	while n < 420:
		m, k = msg(n), msg(n % 150)
		e["sha256", n] = s256(m).hex()
		e["sha512", n] = hashlib.sha512(m).hexdigest()
		if rip:
			e["ripemd160", n] = rip(m)
		e["keccak256", n] = keccak256(m).hex()
		e["hmac256", n] = hmac.new(k, m, "sha256").hexdigest()
		e["hmac512", n] = hmac.new(k, m, "sha512").hexdigest()
		if n < 100:
			e["base58check", n] = b58(m + s256(s256(m))[:4])
			e["base58zeros", n] = b58(bytes(n // 3) + m[n // 3:])
		n += 1 if n < 300 else 17
	for i in range(60):
		a, b, c = (int.from_bytes(s256(msg(i + o)), "big") for o in (0, 1000, 2000))
		e["mulm", i] = "%x" % (a * b % c)
		e["gcd", i] = "%x" % math.gcd(a, b)
		e["invm", i] = "%x" % pow(a, -1, P)
		g = pmul(G, i if i < 20 else N + 5 - i if i < 30 else a)
		q = padd(g, pmul(G, b))
		e["mul", i] = "%x" % g[0] if g else "inf"
		e["add", i] = "%x %x" % q if q else "inf"
		r, s = sign(a % N, b, c % N)
		e["sign", i] = "%x %x" % (r, s)
		pub = pmul(G, a % N)
		e["verify", i] = "%d%d%d" % (verify(pub, b, r, s), verify(pub, b, r, N - s), verify(pub, b + 1, r, s))
		index = 0x80000000 + i if i % 2 else i
		ser = bytes([2 + pub[1] % 2]) + pub[0].to_bytes(32, "big")
		if rip:
			I = hmac.new(msg(32), (b"\0" + (a % N).to_bytes(32, "big") if i % 2 else ser) + index.to_bytes(4, "big"), "sha512").digest()
			e["child", i] = "%x %s %s" % ((int.from_bytes(I[:32], "big") + a) % N, I[32:].hex(), rip(s256(ser))[:8])
		e["bech32", i] = bech32("abc", [(j * 11 + i) & 31 for j in range(i)])
		p = msg(2 + i % 39)
		bits = "".join("{:08b}".format(x) for x in p)
		bits += "0" * (-len(bits) % 5)
		e["to5", i] = "[" + ",".join(str(int(bits[j:j + 5], 2)) for j in range(0, len(bits), 5)) + "]"
	return e


def run(java):
	assert keccak256(b"").hex() == "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"
	assert keccak256(b"abc").hex() == "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"
	exp = expected()
	exe = build.link("g++", build.build_objs(build.harness_jobs(["refdump.cpp", "ref.cpp"], ["-O2"])), [], "refdump")
	bad = 0
	outs = [("C++", build.run([exe]).decode())]
	if java:
		lib, h = build.java_classes()
		outs.append(("Java", build.run(["java", "-XX:+UseSerialGC", "-cp", lib + ":" + h, "pbt.RefDump"]).decode()))
	for lang, text in outs:
		n = 0
		for line in text.splitlines():
			name, i, val = line.split(" ", 2)
			want = exp.get((name, int(i)))
			if want is None:
				continue
			n += 1
			if " ".join(x.lstrip("0") or "0" for x in val.lower().split()) != " ".join(x.lstrip("0") or "0" for x in want.lower().split()) if not name.startswith(("base58", "bech")) else val != want:
				bad += 1
				print("the %s reference model is wrong: %s(%s) = %s, expected %s" % (lang, name, i, val, want))
		print("reference models (%s): %d results agree with Python's" % (lang, n - bad))
	return 1 if bad else 0

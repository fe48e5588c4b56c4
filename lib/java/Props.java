package pbt;

/** The registry of Java properties. */
final class Props {
	static void registerAll() {
		Main.props.put("j_arith", PropsInt::arith);
		Main.props.put("j_misc", PropsInt::misc);
		Main.props.put("j_core", PropsInt::core);
		Main.props.put("j_reciprocal", PropsInt::reciprocal);
		Main.props.put("j_field", PropsInt::field);
		Main.props.put("j_fieldcore", PropsInt::fieldCore);
		Main.props.put("j_reciprocaln", PropsInt::reciprocalN);
		Main.props.put("j_reciprocalp", PropsInt::reciprocalP);
		Main.props.put("j_othercurve", PropsPoint::otherCurve);
		Main.props.put("j_group", PropsPoint::group);
		Main.props.put("j_multiply", PropsPoint::multiply);
		Main.props.put("j_pointmisc", PropsPoint::misc);
		Main.props.put("j_sign", PropsEcdsa::sign);
		Main.props.put("j_refuse", PropsEcdsa::refuse);
		Main.props.put("j_refusehmac", PropsEcdsa::refuseHmac);
		Main.props.put("j_injectpoint", PropsEcdsa::injectPoint);
		Main.props.put("j_ctsmall", PropsCt::small);
		Main.props.put("j_ctpoint", PropsCt::point);
		Main.props.put("j_ctbig", PropsCt::big);
		Main.props.put("j_verify", PropsEcdsa::verify);
		Main.props.put("j_hmacsign", PropsEcdsa::hmacSign);
		Main.props.put("j_sha256", PropsHash::sha256);
		Main.props.put("j_sha512", PropsHash::sha512);
		Main.props.put("j_ripemd", PropsHash::ripemd);
		Main.props.put("j_keccak", PropsHash::keccak);
		Main.props.put("j_hmac", PropsHash::hmac);
		Main.props.put("j_hmac256", PropsHash::hmac256);
		for (int e = 28; e <= 31; e++) {
			int base = e == 31 ? 0x7FFFFFF0 - 8 : 1 << e;
			Main.props.put("j_huge" + e + "_sha256", s -> PropsHash.huge(s, "SHA-256", base));
			Main.props.put("j_huge" + e + "_sha512", s -> PropsHash.huge(s, "SHA-512", base));
			Main.props.put("j_huge" + e + "_ripemd", s -> PropsHash.huge(s, "RIPEMD-160", base));
			Main.props.put("j_huge" + e + "_keccak", s -> PropsHash.huge(s, "Keccak-256", base));
		}
		Main.props.put("j_hugehmac", PropsHash::hugeHmac);
		Main.props.put("j_large_sha256", s -> PropsHash.large(s, "SHA-256"));
		Main.props.put("j_large_sha512", s -> PropsHash.large(s, "SHA-512"));
		Main.props.put("j_large_ripemd", s -> PropsHash.large(s, "RIPEMD-160"));
		Main.props.put("j_large_keccak", s -> PropsHash.large(s, "Keccak-256"));
		Main.props.put("j_large_hmac", PropsHash::largeHmac);
		for (String k : Main.props.keySet()) if (k.startsWith("j_huge")) Main.limits.put(k, 200); else if (k.startsWith("j_large")) Main.limits.put(k, 60);
		Main.props.put("j_hashvalue", PropsHash::value);
		Main.props.put("j_base58", PropsText::base58);
		Main.props.put("j_bech32", PropsText::bech32);
		Main.props.put("j_bech32errors", PropsText::bech32Errors);
		Main.props.put("j_segwit", PropsText::segwit);
		Main.props.put("j_history", s -> PropsPure.history(s, 0));
		Main.props.put("j_history_slow", s -> PropsPure.history(s, 60));
		Main.props.put("j_threads", s -> PropsPure.threads(s, 0));
		Main.props.put("j_threads_slow", s -> PropsPure.threads(s, 60));
		Main.props.put("j_alias", PropsAlias::cheap);
		Main.props.put("j_aliasecdsa", PropsAlias::ecdsa);
		Main.props.put("j_refusals", PropsArgs::refusals);
		Main.props.put("j_assertions", PropsAssert::assertions);
	}
	private Props() {}
}

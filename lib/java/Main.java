package pbt;

import java.io.IOException;
import java.lang.management.ManagementFactory;
import java.lang.management.ThreadMXBean;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.Arrays;
import java.util.LinkedHashSet;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;

/** Runs one property over generated cases, shrinks a failure and writes its replay file. */
public final class Main {
	interface Prop { void run(Src s) throws Exception; }
	static final Map<String, Prop> props = new TreeMap<>();
	static final Map<String, Integer> limits = new TreeMap<>();  // CPU seconds per case, if not the default

	private static String name, variant, out, replayOut;
	private static long seed, first, cases, shard, of;
	private static Prop prop;

	private static String opt(String[] a, String k, String def) {
		for (int i = 0; i + 1 < a.length; i++) if (a[i].equals(k)) return a[i + 1];
		return def;
	}
	static String js(String s) {
		StringBuilder r = new StringBuilder("\"");
		for (char c : s.toCharArray()) {
			if (c == '"' || c == '\\') r.append('\\').append(c);
			else if (c < 32 || c > 126) r.append(String.format(java.util.Locale.ROOT, "\\u%04x", (int)c));
			else r.append(c);
		}
		return r.append('"').toString();
	}
	private static long nameHash(String s) {
		long h = 0xCBF29CE484222325L;
		for (char c : s.toCharArray()) h = (h ^ c) * 0x100000001B3L;
		return h;
	}

	/** Cases made of related values and of the same arrays, so that state left behind by one may mislead the next. */
	private static Prop sequence(Prop p) {
		return p == null ? null : s -> {
			s.memory = new java.util.HashMap<>();
			int n = s.range(2, 4);
			for (int i = 0; i < n; i++) {
				Gen.reuse(i == 0 ? 0 : s.flag() ? 1 : 2);
				s.note("#" + (i + 1) + ":");
				try { p.run(s); } finally { Gen.reuse(-1); }
			}
		};
	}

	/** Returns null if the case passed, else what failed. */
	private static String once(Src s) {
		try {
			prop.run(s);
			return null;
		} catch (OutOfMemoryError e) {
			System.err.println("out of memory");
			Runtime.getRuntime().halt(5);
			return null;
		} catch (Fail e) {
			return e.getMessage();
		} catch (Throwable e) {
			StackTraceElement[] st = e.getStackTrace();
			StringBuilder r = new StringBuilder("unexpected " + e);
			for (int i = 0; i < st.length && i < 6; i++) r.append(" at ").append(st[i]);
			return r.toString();
		}
	}

	// For the watchdog
	private static volatile Src current;
	private static volatile long caseStart, caseIndex;
	private static volatile boolean caseRunning;
	private static Thread worker;
	private static final ThreadMXBean MX = ManagementFactory.getThreadMXBean();

	private static String timed(Src s) {
		current = s;
		caseStart = MX.getCurrentThreadCpuTime();
		caseRunning = true;
		String r = once(s);
		caseRunning = false;
		return r;
	}

	public static void main(String[] a) throws Exception {
		System.setOut(new java.io.PrintStream(new java.io.FileOutputStream(java.io.FileDescriptor.out), true, "UTF-8"));  // Whatever the default encoding
		Props.registerAll();
		name = opt(a, "--prop", "");
		prop = name.endsWith("@") ? sequence(props.get(name.substring(0, name.length() - 1))) : props.get(name);
		if (prop == null) { System.err.println("no such property: " + name + " in " + props.keySet()); System.exit(2); }
		seed = Long.parseLong(opt(a, "--seed", "1"));
		cases = Long.parseLong(opt(a, "--cases", "1000"));
		shard = Long.parseLong(opt(a, "--shard", "0"));
		of = Long.parseLong(opt(a, "--of", "1"));
		variant = opt(a, "--variant", "?");
		out = opt(a, "--out", "");
		replayOut = opt(a, "--replay-out", "replay.json");
		double deadline = Double.parseDouble(opt(a, "--deadline", "600"));
		String d = opt(a, "--dict", "");
		if (!d.isEmpty()) Src.dict = readLongs(d);
		worker = Thread.currentThread();
		final int limit = limits.getOrDefault(name.replace("@", ""), 20);
		Thread dog = new Thread(() -> {
			for (;;) {
				try { Thread.sleep(250); } catch (InterruptedException e) { return; }
				if (caseRunning && (MX.getThreadCpuTime(worker.getId()) - caseStart) > limit * 1_000_000_000L) hang();
			}
		});
		dog.setDaemon(true);
		dog.start();

		String ch = opt(a, "--choices", "");
		if (!ch.isEmpty()) {
			replaying = true;
			Src s = new Src(readLongs(ch));
			String f = timed(s);
			System.out.println((f == null ? "PASS" : "FAIL") + "\n" + s.text() + "\n" + (f == null ? "" : f));
			System.out.flush();
			Runtime.getRuntime().halt(f == null ? 0 : 1);
		}
		if (Arrays.asList(a).contains("--history")) {
			replaying = true;
			long f0 = Long.parseLong(opt(a, "--first", "0")), st = Long.parseLong(opt(a, "--step", "1")), last = Long.parseLong(opt(a, "--last", "0"));
			for (long i = f0; i <= last; i += st) {
				Src s = new Src(seed, nameHash(name), i);
				String f = timed(s);
				if (f != null) {
					System.out.println("FAIL\n" + s.text() + "\n" + f);
					System.out.flush();
					Runtime.getRuntime().halt(1);
				}
			}
			System.out.println("PASS");
			System.out.flush();
			Runtime.getRuntime().halt(0);
		}

		long end = System.nanoTime() + (long)(deadline * 1e9);
		StringBuilder samples = new StringBuilder();
		Set<Long> seen = new LinkedHashSet<>();
		long evals = 0, nontriv = 0;
		for (long i = shard; i < cases; i += of) {
			if (System.nanoTime() > end) break;
			caseIndex = i;
			Src s = new Src(seed, nameHash(name), i);
			String f = timed(s);
			if (f != null) {
				report("violation", evals, nontriv, seen, samples, i, s, f);
				return;
			}
			evals++;
			if (s.nontriv) {
				nontriv++;
				if (seen.size() < 1 << 18) seen.add(s.hash);
				if (samples.length() < 3000 && (i / of) % 3 == 0) samples.append(s.text(), 0, Math.min(900, s.text().length())).append('\n');
			}
		}
		write("ok", evals, nontriv, seen, samples.toString(), 0, "", "");
		Runtime.getRuntime().halt(0);
	}
	private static boolean replaying;

	private static void hang() {
		Src s = current;
		String m = "used up its CPU time limit (endless loop?)";
		if (replaying) {
			System.out.println("FAIL\n" + s.text() + "\n" + m);
			System.out.flush();
			Runtime.getRuntime().halt(1);
		}
		try {
			writeReplay(s.choices(), s.choices(), caseIndex, m, s.text(), 0);
			write("violation", 0, 0, new LinkedHashSet<>(), "", caseIndex, m, s.text());
		} catch (Throwable e) { System.err.println(e); }
		Runtime.getRuntime().halt(1);
	}

	private static void report(String status, long evals, long nontriv, Set<Long> seen, StringBuilder samples, long index, Src s, String f) throws IOException {
		long[] orig = s.choices(), best = orig;
		String msg = f, text = s.text();
		int steps = 0;
		long end = System.nanoTime() + 30_000_000_000L;
		boolean progress = true;
		shrink:
		while (progress) {
			progress = false;
			for (int k = 64; k >= 1; k /= 2)
				for (int i = 0; i + k <= best.length; ) {
					long[] c = new long[best.length - k];
					System.arraycopy(best, 0, c, 0, i);
					System.arraycopy(best, i + k, c, i, best.length - i - k);
					if (System.nanoTime() > end || steps++ > 20000) break shrink;
					Src t = new Src(c);
					String g = timed(t);
					if (g != null && simpler(t.choices(), best)) { best = t.choices(); msg = g; text = t.text(); progress = true; }
					else i += k;
				}
			for (int i = 0; i < best.length; i++) {
				long lo = 0, hi = best[i];
				if (hi == 0) continue;
				boolean zeroFirst = true;
				while (Long.compareUnsigned(hi, lo) > 0) {
					long mid = zeroFirst ? 0 : lo + Long.divideUnsigned(hi - lo, 2);
					if (!zeroFirst && mid == lo && hi - lo == 1 && lo == 0) break;
					long[] c = best.clone();
					c[i] = mid;
					if (System.nanoTime() > end || steps++ > 20000) break shrink;
					Src t = new Src(c);
					String g = timed(t);
					if (g != null && simpler(t.choices(), best)) {
						best = t.choices(); msg = g; text = t.text(); progress = true;
						if (i >= best.length) break;
						hi = best[i];
						if (zeroFirst) break;
					} else lo = zeroFirst ? 0 : mid + 1;
					zeroFirst = false;
				}
			}
		}
		writeReplay(best, orig, index, msg, text, steps);
		write(status, evals, nontriv, seen, samples.toString(), index, msg, text);
		Runtime.getRuntime().halt(1);
	}
	private static boolean simpler(long[] a, long[] b) {
		if (a.length != b.length) return a.length < b.length;
		for (int i = 0; i < a.length; i++) {
			int c = Long.compareUnsigned(a[i], b[i]);
			if (c != 0) return c < 0;
		}
		return false;
	}
	private static String list(long[] a) {
		StringBuilder r = new StringBuilder("[");
		for (int i = 0; i < a.length; i++) r.append(i > 0 ? "," : "").append(Long.toUnsignedString(a[i]));
		return r.append("]").toString();
	}
	private static void writeReplay(long[] best, long[] orig, long index, String msg, String text, int steps) throws IOException {
		String t = String.format(java.util.Locale.ROOT, "{\n \"engine\": \"java\",\n \"prop\": %s,\n \"variant\": %s,\n \"seed\": %d,\n \"case\": %d,\n \"shrink_steps\": %d,\n \"failure\": %s,\n \"case_text\": %s,\n \"dict\": %s,\n \"orig_choices\": %s,\n \"history_alt\": [%d, %d, %d],\n \"choices\": %s\n}\n",
			js(name), js(variant), seed, index, steps, js(msg), js(text), list(Src.dict), list(orig), shard, of, index, list(best));
		Files.write(Paths.get(replayOut), t.getBytes("UTF-8"));
	}
	private static void write(String status, long evals, long nontriv, Set<Long> seen, String samples, long index, String msg, String text) throws IOException {
		StringBuilder l = new StringBuilder();
		for (Map.Entry<String, Long> e : Src.labels.entrySet()) l.append(l.length() > 0 ? ", " : "").append(js(e.getKey())).append(": ").append(e.getValue());
		StringBuilder h = new StringBuilder();
		for (Long x : seen) h.append(h.length() > 0 ? "," : "").append(x);
		String t = "{\"status\": " + js(status) + ", \"evaluations\": " + evals + ", \"nontrivial\": " + nontriv + ", \"labels\": {" + l + "}, \"hashes\": [" + h + "], \"samples\": " + js(samples)
			+ ", \"case\": " + index + ", \"message\": " + js(msg) + ", \"case_text\": " + js(text) + "}\n";
		if (out.isEmpty()) System.out.print(t);
		else Files.write(Paths.get(out), t.getBytes("UTF-8"));
		System.out.flush();
	}
	private static long[] readLongs(String path) throws IOException {
		String t = new String(Files.readAllBytes(Paths.get(path)), "UTF-8").trim();
		if (t.isEmpty()) return new long[0];
		return Arrays.stream(t.split("\\s+")).mapToLong(Long::parseUnsignedLong).toArray();
	}
	private Main() {}
}

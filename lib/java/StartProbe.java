package pbt;

import java.io.BufferedReader;
import java.io.IOException;
import java.io.InputStreamReader;
import java.nio.charset.StandardCharsets;

/** Answers the lines of its standard input like the server, so that the first of them meets a library that nothing has used. */
public final class StartProbe {
	public static void main(String[] a) throws IOException {
		BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.ISO_8859_1));
		JOps ops = new JOps();
		for (String line; (line = in.readLine()) != null; ) {
			System.out.write((Server.answer(ops, line) + "\n").getBytes(StandardCharsets.ISO_8859_1));
			System.out.flush();
		}
	}
	private StartProbe() {}
}

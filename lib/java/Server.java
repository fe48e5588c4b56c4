package pbt;

import java.io.IOException;
import java.io.InputStream;
import java.io.OutputStream;
import java.net.StandardProtocolFamily;
import java.net.UnixDomainSocketAddress;
import java.nio.ByteBuffer;
import java.nio.channels.Channels;
import java.nio.channels.ServerSocketChannel;
import java.nio.channels.SocketChannel;
import java.nio.charset.StandardCharsets;

/** Answers lines "NAME ARG xHEX xHEX ..." with outcomes; one thread for each connection. Ends when its standard input does. */
public final class Server {
	public static void main(String[] a) throws IOException {
		ServerSocketChannel srv = ServerSocketChannel.open(StandardProtocolFamily.UNIX);
		srv.bind(UnixDomainSocketAddress.of(a[0]), 256);
		Thread t = new Thread(() -> {
			for (;;) {
				try {
					SocketChannel c = srv.accept();
					Thread w = new Thread(null, () -> serve(c), "worker", 16 << 20);
					w.setDaemon(true);
					w.start();
				} catch (IOException e) { e.printStackTrace(); Runtime.getRuntime().halt(1); }
			}
		});
		t.setDaemon(true);
		t.start();
		System.out.println("ready");
		System.out.flush();
		while (System.in.read() >= 0);
		Runtime.getRuntime().halt(0);
	}
	private static void serve(SocketChannel c) {
		JOps ops = new JOps();
		ByteBuffer in = ByteBuffer.allocate(1 << 16);
		StringBuilder line = new StringBuilder();
		try {
			for (;;) {
				in.clear();
				if (c.read(in) < 0) return;
				in.flip();
				while (in.hasRemaining()) {
					char ch = (char)(in.get() & 0xFF);
					if (ch != '\n') { line.append(ch); continue; }
					ByteBuffer out = ByteBuffer.wrap((answer(ops, line.toString()) + "\n").getBytes(StandardCharsets.ISO_8859_1));
					while (out.hasRemaining()) c.write(out);
					line.setLength(0);
				}
			}
		} catch (IOException e) {}
		finally { try { c.close(); } catch (IOException e) {} }
	}
	static String answer(JOps ops, String line) {
		try {
			String[] w = line.split(" ");
			byte[][] d = new byte[w.length - 2][];
			for (int i = 0; i < d.length; i++) {
				d[i] = new byte[(w[i + 2].length() - 1) / 2];
				for (int j = 0; j < d[i].length; j++) d[i][j] = (byte)(Character.digit(w[i + 2].charAt(1 + 2 * j), 16) << 4 | Character.digit(w[i + 2].charAt(2 + 2 * j), 16));
			}
			int op = JOps.find(w[0]);
			if (op < 0) return "no such operation";
			return ops.run(op, d, Long.parseUnsignedLong(w[1]), 0x5A);
		} catch (Fail e) { return e.getMessage(); }
		catch (Throwable e) { return "fails with " + e; }
	}
	private Server() {}
}

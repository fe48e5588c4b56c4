package pbt;

import java.io.IOException;
import java.nio.file.Files;
import java.nio.file.Path;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.HashSet;
import java.util.List;
import java.util.Set;
import jdk.internal.org.objectweb.asm.ClassReader;
import jdk.internal.org.objectweb.asm.ClassWriter;
import jdk.internal.org.objectweb.asm.Opcodes;
import jdk.internal.org.objectweb.asm.Type;
import jdk.internal.org.objectweb.asm.tree.AbstractInsnNode;
import jdk.internal.org.objectweb.asm.tree.ClassNode;
import jdk.internal.org.objectweb.asm.tree.InsnList;
import jdk.internal.org.objectweb.asm.tree.InsnNode;
import jdk.internal.org.objectweb.asm.tree.JumpInsnNode;
import jdk.internal.org.objectweb.asm.tree.LabelNode;
import jdk.internal.org.objectweb.asm.tree.LdcInsnNode;
import jdk.internal.org.objectweb.asm.tree.LineNumberNode;
import jdk.internal.org.objectweb.asm.tree.LookupSwitchInsnNode;
import jdk.internal.org.objectweb.asm.tree.MethodInsnNode;
import jdk.internal.org.objectweb.asm.tree.MethodNode;
import jdk.internal.org.objectweb.asm.tree.TableSwitchInsnNode;
import jdk.internal.org.objectweb.asm.tree.TypeInsnNode;

/**
 * Loads a second copy of the library, rewritten while it is loaded: either so that every branch and array access is
 * recorded by Trace, or so that what HMAC-SHA-256 gives to its callers can be replaced. Harness classes named as
 * 'inner' are loaded alongside, unchanged, and use that copy.
 */
final class Rewriter extends ClassLoader {
	private static final String LIB = "io.nayuki.bitcoin.crypto.", T = "pbt/Trace";
	private static final List<String> places = new ArrayList<>();
	static String place(int id) { return places.get(id); }

	private final boolean trace;
	private final Set<String> inner = new HashSet<>();

	Rewriter(boolean trace, String... innerClasses) {
		super(Rewriter.class.getClassLoader());
		this.trace = trace;
		for (String s : innerClasses) inner.add(s);
	}
	Object make(String cls) {
		try { java.lang.reflect.Constructor<?> c = loadClass(cls).getDeclaredConstructor(); c.setAccessible(true); return c.newInstance(); }
		catch (ReflectiveOperationException e) { throw new IllegalStateException(e); }
	}
	@Override protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
		synchronized (getClassLoadingLock(name)) {
			Class<?> c = findLoadedClass(name);
			if (c != null) return c;
			boolean lib = name.startsWith(LIB);
			if (!lib && !inner.contains(name)) return super.loadClass(name, resolve);
			try {
				String rel = name.replace('.', '/') + ".class";
				byte[] b;
				if (lib) b = Files.readAllBytes(Paths.get(System.getProperty("pbt.lib"), rel));
				else try (java.io.InputStream in = Rewriter.class.getClassLoader().getResourceAsStream(rel)) { b = in.readAllBytes(); }
				if (lib) b = trace ? traced(b) : hooked(b);
				c = defineClass(name, b, 0, b.length);
				return c;
			} catch (IOException e) { throw new ClassNotFoundException(name, e); }
		}
	}

	private static byte[] hooked(byte[] b) {
		ClassNode c = new ClassNode();
		new ClassReader(b).accept(c, 0);
		if (!c.name.endsWith("/Sha256"))
			for (MethodNode m : c.methods)
				for (AbstractInsnNode n : m.instructions.toArray())
					if (n instanceof MethodInsnNode) {
						MethodInsnNode i = (MethodInsnNode)n;
						if (i.getOpcode() == Opcodes.INVOKESTATIC && i.owner.equals("io/nayuki/bitcoin/crypto/Sha256") && i.name.equals("getHmac")
								&& i.desc.equals("([B[B)Lio/nayuki/bitcoin/crypto/Sha256Hash;"))
							i.owner = "pbt/HmacHook";
					}
		ClassWriter w = new ClassWriter(0);
		c.accept(w);
		return w.toByteArray();
	}

	private static AbstractInsnNode call(String name, String desc) { return new MethodInsnNode(Opcodes.INVOKESTATIC, T, name, desc, false); }

	private static byte[] traced(byte[] b) {
		ClassNode c = new ClassNode();
		new ClassReader(b).accept(c, 0);
		for (MethodNode m : c.methods) {
			InsnList l = m.instructions;
			AbstractInsnNode[] all = l.toArray();
			Set<AbstractInsnNode> starts = new HashSet<>();  // Where basic blocks start
			for (AbstractInsnNode n : all) {
				List<LabelNode> targets = new ArrayList<>();
				if (n instanceof JumpInsnNode) {
					targets.add(((JumpInsnNode)n).label);
					if (n.getOpcode() != Opcodes.GOTO) starts.add(real(n.getNext()));
				} else if (n instanceof TableSwitchInsnNode) { targets.addAll(((TableSwitchInsnNode)n).labels); targets.add(((TableSwitchInsnNode)n).dflt); }
				else if (n instanceof LookupSwitchInsnNode) { targets.addAll(((LookupSwitchInsnNode)n).labels); targets.add(((LookupSwitchInsnNode)n).dflt); }
				for (LabelNode t : targets) starts.add(real(t));
			}
			int line = 0;
			for (AbstractInsnNode n : all) {
				if (n instanceof LineNumberNode) line = ((LineNumberNode)n).line;
				if (n.getOpcode() < 0) continue;
				if (starts.contains(n)) {
					places.add(c.name.substring(c.name.lastIndexOf('/') + 1) + "." + m.name + " line " + line);
					l.insertBefore(n, new LdcInsnNode(places.size() - 1));
					l.insertBefore(n, call("block", "(I)V"));
				}
				AbstractInsnNode r = null;
				switch (n.getOpcode()) {
					case Opcodes.IALOAD: r = call("ld", "([II)I"); break;
					case Opcodes.LALOAD: r = call("ld", "([JI)J"); break;
					case Opcodes.CALOAD: r = call("ld", "([CI)C"); break;
					case Opcodes.SALOAD: r = call("ld", "([SI)S"); break;
					case Opcodes.BALOAD: r = call("ldb", "(Ljava/lang/Object;I)B"); break;
					case Opcodes.IASTORE: r = call("st", "([III)V"); break;
					case Opcodes.LASTORE: r = call("st", "([JIJ)V"); break;
					case Opcodes.CASTORE: r = call("st", "([CIC)V"); break;
					case Opcodes.SASTORE: r = call("st", "([SIS)V"); break;
					case Opcodes.BASTORE: r = call("stb", "(Ljava/lang/Object;II)V"); break;
					case Opcodes.NEWARRAY: case Opcodes.ANEWARRAY: l.insertBefore(n, call("length", "(I)I")); break;
					case Opcodes.AALOAD:  // The element's type is not known here: record a copy of the position only
						l.insertBefore(n, new InsnNode(Opcodes.DUP));
						l.insertBefore(n, call("index", "(I)V"));
						break;
					case Opcodes.INVOKESTATIC: {
						MethodInsnNode i = (MethodInsnNode)n;
						if (i.owner.equals("java/lang/System") && i.name.equals("arraycopy") || i.owner.equals("java/util/Arrays") && known(i.name, i.desc)) i.owner = T;
						break;
					}
					default:
				}
				if (r != null) l.set(n, r);
			}
		}
		ClassWriter w = new ClassWriter(ClassWriter.COMPUTE_MAXS);
		c.accept(w);
		return w.toByteArray();
	}
	private static AbstractInsnNode real(AbstractInsnNode n) {
		while (n != null && n.getOpcode() < 0) n = n.getNext();
		return n;
	}
	private static boolean known(String name, String desc) {
		for (java.lang.reflect.Method m : Trace.class.getMethods())
			if (m.getName().equals(name) && Type.getMethodDescriptor(m).equals(desc)) return true;
		return false;
	}
}

package verif;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** Operators of module Impl: the bridge between TLC and the Go driver. */
public final class ImplOps {
    private static final String CMD = System.getProperty("verif.driver", "");
    private static final String OUT = System.getProperty("verif.out", ".");
    private static final ConcurrentHashMap<String, LongAdder> counts = new ConcurrentHashMap<>();
    private static final ConcurrentHashMap<String, String> samples = new ConcurrentHashMap<>();
    private static final AtomicInteger logged = new AtomicInteger();
    private static final List<Proc> procs = Collections.synchronizedList(new ArrayList<>());

    static {
        Runtime.getRuntime().addShutdownHook(new Thread(ImplOps::dump));
    }

    private static synchronized void dump() {
        for (Proc p : procs.toArray(new Proc[0])) p.p.destroyForcibly();
        StringBuilder sb = new StringBuilder("{\"counts\":{");
        boolean first = true;
        for (String k : new TreeSet<>(counts.keySet())) {
            if (!first) sb.append(',');
            first = false;
            Codec.quote(sb, k);
            sb.append(':').append(counts.get(k).sum());
        }
        sb.append("},\"samples\":{");
        first = true;
        for (String k : new TreeSet<>(samples.keySet())) {
            if (!first) sb.append(',');
            first = false;
            Codec.quote(sb, k);
            sb.append(':').append(samples.get(k));
        }
        sb.append("}}\n");
        try {
            Files.write(Paths.get(OUT, "stats.json"), sb.toString().getBytes(StandardCharsets.UTF_8));
        } catch (IOException e) {
            System.err.println("stats: " + e);
        }
    }

    private static final class Proc {
        final Process p;
        final BufferedOutputStream in;
        final BufferedReader out;
        final Path err;

        Proc() throws IOException {
            ProcessBuilder b = new ProcessBuilder(CMD.split(" "));
            err = Files.createTempFile(Paths.get(OUT), "driver", ".err");
            b.redirectError(err.toFile());
            p = b.start();
            in = new BufferedOutputStream(p.getOutputStream(), 1 << 16);
            out = new BufferedReader(new InputStreamReader(p.getInputStream(), StandardCharsets.ISO_8859_1), 1 << 16);
            procs.add(this);
        }
    }

    /** The driver was ended from outside: nothing on its standard error. */
    private static boolean killed(Proc p) {
        try {
            return Files.size(p.err) == 0;
        } catch (IOException e) {
            return true;
        }
    }

    private static final ThreadLocal<Proc> proc = new ThreadLocal<>();

    /** One request to this worker's driver process; respawned after a death. */
    static String request(String fn, String args) {
        try {
            Proc p = proc.get();
            if (p == null) {
                p = new Proc();
                proc.set(p);
            }
            String line = null;
            try {
                p.in.write(fn.getBytes(StandardCharsets.UTF_8));
                p.in.write('\t');
                p.in.write(args.getBytes(StandardCharsets.UTF_8));
                p.in.write('\n');
                p.in.flush();
                line = p.out.readLine();
            } catch (IOException e) {
                // driver died
            }
            if (line == null) {
                try {
                    if (!p.p.waitFor(10, TimeUnit.SECONDS)) p.p.destroyForcibly();
                    p.p.waitFor();
                } catch (InterruptedException e) { }
                if (p.p.exitValue() == 137 && line == null && killed(p)) throw new RuntimeException("driver was killed (memory?)");
                String msg = new String(Files.readAllBytes(p.err), StandardCharsets.UTF_8);
                if (msg.length() > 400) msg = msg.substring(0, 400);
                procs.remove(p);
                proc.remove();
                StringBuilder sb = new StringBuilder("{\"st\":\"crash\",\"msg\":");
                Codec.quote(sb, msg.replaceAll("[^ -~]", " "));
                return sb.append("}").toString();
            }
            if (line.startsWith("{\"st\":\"hang\"")) {
                p.p.destroyForcibly();
                procs.remove(p);
                proc.remove();
            }
            return line;
        } catch (IOException e) {
            throw new RuntimeException("driver: " + e);
        }
    }

    private static final class Last {
        String key, res;
        Value v;
    }

    private static final ThreadLocal<Last> last = ThreadLocal.withInitial(Last::new);

    @TLAPlusOperator(identifier = "Call", module = "Impl", warn = false)
    public static Value call(final StringValue fn, final Value args) {
        StringBuilder sb = new StringBuilder();
        Codec.write(sb, args);
        String f = fn.val.toString(), a = sb.toString(), key = f + "\t" + a;
        Last l = last.get();
        if (key.equals(l.key)) return l.v; // same call evaluated again in one judgement
        String r = request(f, a);
        if (r.startsWith("{\"st\":\"nofunc\"")) throw new RuntimeException("driver has no function " + f);
        Value v = Codec.read(r);
        l.key = key;
        l.res = r;
        l.v = v;
        return v;
    }

    @TLAPlusOperator(identifier = "Report", module = "Impl", warn = false)
    public static Value report(final StringValue tag, final Value args, final BoolValue ok) {
        String t = tag.val.toString();
        counts.computeIfAbsent(t, k -> new LongAdder()).increment();
        if (!samples.containsKey(t) || (!ok.val && logged.get() < 50)) {
            StringBuilder sb = new StringBuilder("{\"tag\":");
            Codec.quote(sb, t);
            sb.append(",\"args\":");
            Codec.write(sb, args);
            Last l = last.get();
            String r = l.res == null ? "{}" : l.res;
            sb.append(",\"result\":").append(r).append("}");
            String s = sb.toString();
            if (s.length() < 6000) samples.putIfAbsent(t, s);
            if (!ok.val) {
                logged.incrementAndGet();
                synchronized (ImplOps.class) {
                    try (Writer w = new OutputStreamWriter(new FileOutputStream(new File(OUT, "violations.ndjson"), true), StandardCharsets.UTF_8)) {
                        w.write(s);
                        w.write("\n");
                    } catch (IOException e) {
                        throw new RuntimeException(e);
                    }
                }
            }
        }
        return ok;
    }

    @TLAPlusOperator(identifier = "Tally", module = "Impl", warn = false)
    public static Value tally(final StringValue name, final BoolValue cond) {
        if (cond.val) counts.computeIfAbsent(name.val.toString(), k -> new LongAdder()).increment();
        return BoolValue.ValTrue;
    }

    @TLAPlusOperator(identifier = "TallyN", module = "Impl", warn = false)
    public static Value tallyN(final StringValue name, final IntValue n) {
        counts.computeIfAbsent(name.val.toString(), k -> new LongAdder()).add(n.val);
        return BoolValue.ValTrue;
    }

    @TLAPlusOperator(identifier = "ReplayCase", module = "Impl", warn = false)
    public static Value replayCase(final Value x) {
        try {
            String s = new String(Files.readAllBytes(Paths.get(System.getProperty("verif.replay"))), StandardCharsets.UTF_8).trim();
            return Codec.read(s);
        } catch (IOException e) {
            throw new RuntimeException(e);
        }
    }

    @TLAPlusOperator(identifier = "ReadJson", module = "Impl", warn = false)
    public static Value readJson(final StringValue name) {
        try {
            String s = new String(Files.readAllBytes(Paths.get(OUT, name.val.toString())), StandardCharsets.UTF_8).trim();
            return Codec.read(s);
        } catch (IOException e) {
            throw new RuntimeException(e);
        }
    }

    // ---- deterministic pseudo-random input generation ---------------------------

    private static long mix(long z) {
        z = (z ^ (z >>> 30)) * 0xbf58476d1ce4e5b9L;
        z = (z ^ (z >>> 27)) * 0x94d049bb133111ebL;
        return z ^ (z >>> 31);
    }

    private static long hash(Value v) {
        StringBuilder sb = new StringBuilder();
        Codec.write(sb, v);
        long h = 1125899906842597L;
        for (int i = 0; i < sb.length(); i++) h = 31 * h + sb.charAt(i);
        return mix(h + 0x9e3779b97f4a7c15L);
    }

    /** Rand(key, m): a number in 0..m-1 that is a function of key. */
    @TLAPlusOperator(identifier = "Rand", module = "Impl", warn = false)
    public static Value rand(final Value key, final IntValue m) {
        return IntValue.gen((int) Long.remainderUnsigned(hash(key), m.val));
    }

    /** RandBits(key, n): n pseudo-random bits as a natural number. */
    @TLAPlusOperator(identifier = "RandBits", module = "Impl", warn = false)
    public static Value randBits(final Value key, final IntValue n) {
        return Codec.nat(new java.math.BigInteger(n.val, new Random(hash(key))));
    }
}

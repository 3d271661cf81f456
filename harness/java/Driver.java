import com.booking.sereal.*;
import java.io.*;
import java.lang.management.*;
import java.lang.ref.WeakReference;
import java.math.BigInteger;
import java.nio.ByteBuffer;
import java.nio.ByteOrder;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.regex.Pattern;

/** Answers the requests of the harness: a length and a message on stdin, a length and K or E and an answer on stdout. */
public class Driver {
  static ByteBuffer in;
  static ByteArrayOutputStream out;

  static int n() { return in.getInt(); }
  static byte[] bytes() { byte[] b = new byte[n()]; in.get(b); return b; }
  static String str() { return new String(bytes(), StandardCharsets.UTF_8); }

  static void n(int i) { out.write(i); out.write(i >> 8); out.write(i >> 16); out.write(i >> 24); }
  static void str(byte[] b) { n(b.length); out.write(b, 0, b.length); }
  static void str(String s) { str(s.getBytes(StandardCharsets.UTF_8)); }

  static class Wrong extends RuntimeException { Wrong(String s) { super(s); } }

  public static void main(String[] args) throws Exception {
    DataInputStream is = new DataInputStream(new BufferedInputStream(System.in, 1 << 16));
    DataOutputStream os = new DataOutputStream(new BufferedOutputStream(System.out, 1 << 16));
    System.setOut(System.err);
    for (;;) {
      int len;
      try { len = Integer.reverseBytes(is.readInt()); } catch (EOFException e) { return; }
      byte[] msg = new byte[len];
      is.readFully(msg);
      in = ByteBuffer.wrap(msg).order(ByteOrder.LITTLE_ENDIAN);
      out = new ByteArrayOutputStream();
      byte[] answer;
      try {
        char cmd = (char) in.get();
        out.write('K');
        switch (cmd) {
          case 'T': tokens(); break;
          case 'D': decode(); break;
          case 'M': damaged(); break;
          case 'E': JEnc.encode(); break;
          case 'W': JEnc.write(); break;
          default: throw new Wrong("command " + cmd);
        }
        answer = out.toByteArray();
      } catch (Throwable t) {
        StringWriter w = new StringWriter();
        if (t instanceof Wrong) w.write(t.getMessage());
        else {
          w.write(t.toString());
          StackTraceElement[] st = t.getStackTrace();
          for (int i = 0; i < st.length && i < 4; i++) w.write("\n  at " + st[i]);
        }
        answer = ("E" + w).getBytes(StandardCharsets.UTF_8);
      }
      os.writeInt(Integer.reverseBytes(answer.length));
      os.write(answer);
      os.flush();
    }
  }

  static String hex(byte[] b, int from, int to) {
    StringBuilder s = new StringBuilder();
    for (int i = from; i < to; i++) s.append(Character.forDigit((b[i] >> 4) & 15, 16)).append(Character.forDigit(b[i] & 15, 16));
    return s.toString();
  }

  static ByteArray given(byte[] doc, int start, int behind) {
    byte[] b = new byte[start + doc.length + behind];
    Arrays.fill(b, (byte) 0x5a);
    System.arraycopy(doc, 0, b, start, doc.length);
    return new ByteArray(b, start, doc.length);
  }

  // ---- the token decoder: a document, and what to do with it in turn ----

  static TokenDecoder tokenDecoder = new TokenDecoder();

  static void tokens() throws Exception {
    TokenDecoder d = n() == 1 ? new TokenDecoder() : tokenDecoder;
    byte[] doc = bytes();
    int start = n(), behind = n();
    if (start == 0 && behind == 0) d.setData(doc); else d.setData(given(doc, start, behind));
    for (int i = n(); i > 0; i--) {
      int what = in.get(), arg = n();
      if (what == 'n') { n(d.hasHeader() ? 1 : 0); n(d.headerSize()); continue; }
      if (what == 'h') d.prepareDecodeHeader(); else d.prepareDecodeBody();
      StringBuilder s = new StringBuilder();
      boolean sub = (arg & 1) == 1;
      int max = arg >> 1;
      ArrayDeque<Integer> sizes = new ArrayDeque<>();
      for (int k = 0; max == 0 || k < max; k++) {
        SerealToken t = d.nextToken();
        if (t != d.currentToken()) throw new Wrong("currentToken is " + d.currentToken() + " and not " + t);
        s.append(t);
        switch (t) {
          case END: case ARRAY_END: case HASH_END: case OBJECT_END: case SUBDECODE_END: break;
          default:
            s.append(" @").append(d.tokenOffset());
            if (d.trackOffset() != 0) s.append(" track ").append(d.trackOffset());
            if (d.isHashKey()) s.append(" key");
        }
        switch (t) {
          case LONG: case UNSIGNED_LONG:
            s.append(' ').append(d.bigintValue());
            if (d.longValue() != d.bigintValue().longValue()) throw new Wrong("longValue");
            break;
          case FLOAT: s.append(' ').append(Integer.toHexString(Float.floatToIntBits(d.floatValue()))); break;
          case DOUBLE: s.append(' ').append(Long.toHexString(Double.doubleToLongBits(d.doubleValue()))); break;
          case REGEXP:
            s.append(d.binaryIsUtf8() ? " u " : " b ").append(hex(d.decoderBuffer(), d.binarySliceStart(), d.binarySliceEnd()));
            s.append(" f ").append(hex(d.decoderBuffer(), d.regexpFlagsSliceStart(), d.regexpFlagsSliceEnd()));
            if (d.regexpFlagsSliceLength() != d.regexpFlagsSliceEnd() - d.regexpFlagsSliceStart()) throw new Wrong("regexpFlagsSliceLength");
            break;
          case BINARY: case UTF8: case OBJECT_START:
            s.append(d.binaryIsUtf8() ? " u " : " b ").append(hex(d.decoderBuffer(), d.binarySliceStart(), d.binarySliceEnd()));
            if (d.binarySliceLength() != d.binarySliceEnd() - d.binarySliceStart()) throw new Wrong("binarySliceLength");
            break;
          case ARRAY_START: case HASH_START: s.append(' ').append(d.elementCount()); break;
          case REFP: case ALIAS: case COPY: s.append(' ').append(d.backreferenceOffset()); break;
          default: break;
        }
        s.append('\n');
        if (t == SerealToken.COPY && sub) d.startSubDecode(d.backreferenceOffset());
        if (t == SerealToken.END) break;
      }
      str(s.toString());
    }
  }

  // ---- any bytes: an exception or a value, which depends on nothing else ----

  static String damaged(int k, int flags, ByteArray b) throws Exception {
    try {
      if (k < 2) {
        TokenDecoder d = tokenDecoder;
        d.setData(b);
        if (k == 1) { if (!d.hasHeader()) return "no header"; d.prepareDecodeHeader(); } else d.prepareDecodeBody();
        int h = 0;
        for (int i = 0; ; i++) {
          if (i > 20000000) throw new Wrong("tokens without end");
          SerealToken t = d.nextToken();
          h = h * 31 + t.ordinal();
          switch (t) {
            case END: return "tokens " + i + " " + h;
            case LONG: case UNSIGNED_LONG: h = h * 31 + Long.hashCode(d.longValue()); break;
            case BINARY: case UTF8: case OBJECT_START: case REGEXP:
              h = h * 31 + hex(d.decoderBuffer(), d.binarySliceStart(), d.binarySliceEnd()).hashCode(); break;
            case DOUBLE: h = h * 31 + Double.hashCode(d.doubleValue()); break;
            case FLOAT: h = h * 31 + Float.hashCode(d.floatValue()); break;
            default: break;
          }
        }
      }
      Decoder d = decoders.computeIfAbsent(flags, f -> decoder(f));
      d.setData(b);
      if (k == 3 && !d.hasHeader()) return "no header";
      Object o = k == 2 ? d.decode() : d.decodeHeader();
      ByteArrayOutputStream saved = out;
      out = new ByteArrayOutputStream();
      try {
        Dump dump = new Dump(flags);
        dump.max = 1000000;
        try { dump.value(o); } catch (Wrong w) { return "odd"; }
        return dump.gone ? "odd" : "value " + out.size() + " " + Arrays.hashCode(out.toByteArray());
      } finally { out = saved; }
    } catch (SerealException e) {
      return "refused";
    } catch (Wrong e) {
      throw e;
    } catch (RuntimeException e) {
      return "refused";
    } catch (Throwable t) {
      StringWriter w = new StringWriter();
      w.write(t.toString());
      StackTraceElement[] st = t.getStackTrace();
      for (int i = 0; i < st.length && i < 5; i++) w.write("\n  at " + st[i]);
      throw new Wrong(w.toString());
    }
  }

  static void damaged() throws Exception {
    int flags = n();
    byte[] doc = bytes();
    for (int k = 0; k < 4; k++) {
      String[] said = new String[3];
      for (int i = 0; i < 3; i++) {
        int start = n(), behind = n();
        byte[] fill = bytes();
        byte[] a = new byte[start + doc.length + behind];
        for (int x = 0; x < a.length; x++) a[x] = fill[x % fill.length];
        System.arraycopy(doc, 0, a, start, doc.length);
        said[i] = damaged(k, flags, new ByteArray(a, start, doc.length));
        if (!said[i].equals(said[0]) && !said[i].equals("odd") && !said[0].equals("odd"))
          throw new Wrong((k == 0 ? "tokens of the body" : k == 1 ? "tokens of the header" : k == 2 ? "the body" : "the header") + " depend on what surrounds the document: " + said[0] + ", from " + start + " and with " + behind + " behind " + said[i]);
      }
      str(said[0]);
    }
  }

  // ---- the decoder ----

  static final Map<Integer, Decoder> decoders = new HashMap<>();

  static class Arrays2 implements TypeMapper {
    public boolean useObjectArray() { return true; }
    public List<Object> makeArray(int size) { throw new Wrong("makeArray"); }
    public Map<String, Object> makeMap(int size) { return new TreeMap<String, Object>(); }
    public Object makeObject(String c, Object data) { return new PerlObject(c, data); }
  }

  static final int REFS = 1, ALIASES = 2, UNDEF = 4, LATIN1 = 8, STRIP = 16, ARRAYS = 32;

  static Decoder decoder(int flags) {
    DecoderOptions o = new DecoderOptions().perlReferences((flags & REFS) != 0).perlAliases((flags & ALIASES) != 0).preserveUndef((flags & UNDEF) != 0)
        .preferLatin1((flags & LATIN1) != 0).stripObjects((flags & STRIP) != 0);
    if ((flags & ARRAYS) != 0) o.typeMapper(new Arrays2());
    return new Decoder(o);
  }

  static long collections() {
    long n = 0;
    for (GarbageCollectorMXBean b : ManagementFactory.getGarbageCollectorMXBeans()) n += b.getCollectionCount();
    return n;
  }

  static void decode() throws Exception {
    int flags = n(), fresh = n();
    byte[] doc = bytes();
    int start = n(), behind = n();
    int ops = n();
    byte[] op = new byte[ops];
    in.get(op);
    Decoder d = fresh == 1 ? decoder(flags) : decoders.computeIfAbsent(flags, f -> decoder(f));
    for (int try_ = 0;; try_++) {
      out = new ByteArrayOutputStream();
      out.write('K');
      long gcs = collections();
      if (start == 0 && behind == 0) d.setData(doc); else d.setData(given(doc, start, behind));
      Dump dump = new Dump(flags);
      for (byte o : op) {
        if (o == 'n') { n(d.hasHeader() ? 1 : 0); n((int) d.headerSize()); continue; }
        dump.seen.clear();
        dump.value(o == 'h' ? d.decodeHeader() : d.decode());
      }
      // without a collection nothing is gone that was there, and the harness judges the null
      if (!dump.gone || collections() == gcs) return;
      if (try_ > 20) throw new Wrong("a weak reference to nothing, 20 times");
    }
  }

  static class Dump {
    final IdentityHashMap<Object, Integer> seen = new IdentityHashMap<>();
    final int flags;
    boolean gone;
    Dump(int flags) { this.flags = flags; }

    boolean again(Object o) {
      Integer id = seen.get(o);
      if (id == null) { seen.put(o, seen.size()); return false; }
      out.write('^'); n(id);
      return true;
    }

    int max, n;

    void value(Object o) {
      if (max > 0 && n++ > max) throw new Wrong("large");
      if (o == null) out.write('n');
      else if (o == PerlUndef.CANONICAL) out.write('c');
      else if (o instanceof PerlUndef) out.write('u');
      else if (o instanceof Long) { out.write('i'); str(o.toString()); }
      else if (o instanceof BigInteger) { out.write('I'); str(o.toString()); }
      else if (o instanceof Float) { out.write('f'); str(Integer.toHexString(Float.floatToRawIntBits((Float) o))); }
      else if (o instanceof Double) { out.write('d'); str(Long.toHexString(Double.doubleToRawLongBits((Double) o))); }
      else if (o instanceof Boolean) out.write((Boolean) o ? 't' : 'F');
      else if (o instanceof byte[] && (flags & LATIN1) == 0) { out.write('b'); str((byte[]) o); }
      else if (o instanceof Latin1String && (flags & LATIN1) != 0) { out.write('b'); str(((Latin1String) o).getBytes()); }
      else if (o instanceof String) { out.write('s'); str((String) o); }
      else if (o instanceof Pattern) {
        int f = ((Pattern) o).flags();
        String s = ((f & Pattern.MULTILINE) != 0 ? "m" : "") + ((f & Pattern.DOTALL) != 0 ? "s" : "") + ((f & Pattern.CASE_INSENSITIVE) != 0 ? "i" : "") + ((f & Pattern.COMMENTS) != 0 ? "x" : "");
        if ((f & ~(Pattern.MULTILINE | Pattern.DOTALL | Pattern.CASE_INSENSITIVE | Pattern.COMMENTS)) != 0) s += "?" + f;
        out.write('r'); str(((Pattern) o).pattern()); str(s);
      }
      else if (o instanceof Object[] && (flags & ARRAYS) != 0) {
        if (again(o)) return;
        out.write('a'); n(((Object[]) o).length);
        for (Object x : (Object[]) o) value(x);
      }
      else if (o instanceof List && (flags & ARRAYS) == 0) {
        if (again(o)) return;
        out.write('a'); n(((List<?>) o).size());
        for (Object x : (List<?>) o) value(x);
      }
      else if (o instanceof Map) {
        if (again(o)) return;
        out.write('m'); n(((Map<?, ?>) o).size());
        for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) { str((String) e.getKey()); value(e.getValue()); }
      }
      else if (o instanceof PerlObject) {
        if (again(o)) return;
        out.write('o'); str(((PerlObject) o).getName()); value(((PerlObject) o).getData());
      }
      else if (o instanceof PerlReference && (flags & REFS) != 0) {
        if (again(o)) return;
        out.write('R'); value(((PerlReference) o).getValue());
      }
      else if (o instanceof PerlAlias && (flags & ALIASES) != 0) { out.write('A'); value(((PerlAlias) o).getValue()); }
      else if (o instanceof WeakReference) {
        Object x = ((WeakReference<?>) o).get();
        if (x == null) gone = true;
        if ((flags & REFS) != 0 && x != null && !(x instanceof PerlReference)) throw new Wrong("a weak reference to " + x.getClass());
        out.write('w'); value(x);
      }
      else throw new Wrong("a " + o.getClass().getName());
    }
  }
}

import com.booking.sereal.*;
import java.lang.ref.WeakReference;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.regex.Pattern;

/** The encoders: objects and calls as the harness describes them. */
class JEnc {
  static final EncoderOptions.CompressionType[] TYPES = {
    EncoderOptions.CompressionType.NONE, EncoderOptions.CompressionType.SNAPPY, EncoderOptions.CompressionType.ZLIB, EncoderOptions.CompressionType.ZSTD,
  };

  static byte op() { return Driver.in.get(); }

  static EncoderOptions options() {
    int flags = Driver.n();
    EncoderOptions o = new EncoderOptions().perlReferences((flags & 1) != 0).perlAliases((flags & 2) != 0).protocolVersion(Driver.n());
    int type = Driver.n();
    o.compressionType(TYPES[type]);
    o.compressionThreshold(Driver.n());
    int level = Driver.n();
    if (level > 0) { o.zlibCompressionLevel(level); o.zstdCompressionLevel(level); }
    int n = Driver.n();
    if (n > 0) o.maxNumMapEntries(n);
    n = Driver.n();
    if (n > 0) o.maxNumArrayEntries(n);
    n = Driver.n();
    if (n > 0) o.maxStringLength(n);
    return o;
  }

  // ---- Encoder ----

  static List<Object> ids = new ArrayList<>();
  static Object pending;
  static int pendingKind;

  static Object build() {
    Object o = shell();
    if (pending != null) {
      Object c = pending;
      pending = null;
      fill(c);
    }
    return o;
  }

  @SuppressWarnings("unchecked")
  static void fill(Object c) {
    if (c instanceof Object[]) {
      Object[] a = (Object[]) c;
      for (int i = 0; i < a.length; i++) a[i] = build();
    } else if (c instanceof List) {
      int n = Driver.n();
      for (int i = 0; i < n; i++) ((List<Object>) c).add(build());
    } else {
      int n = Driver.n();
      for (int i = 0; i < n; i++) { Object k = build(); ((Map<Object, Object>) c).put(k, build()); }
    }
  }

  static Object set(int id, Object o) { ids.set(id, o); return o; }

  static Object shell() {
    byte t = op();
    if (t == '^') return ids.get(Driver.n());
    int id = ids.size();
    ids.add(null);
    switch (t) {
      case 'n': return null;
      case 'u': return set(id, new PerlUndef());
      case 'c': return set(id, PerlUndef.CANONICAL);
      case 'L': return set(id, Long.valueOf(Driver.str()));
      case 'I': return set(id, Integer.valueOf(Driver.str()));
      case 'B': return set(id, Byte.valueOf(Driver.str()));
      case 'G': return set(id, new BigInteger(Driver.str()));
      case 't': return set(id, Boolean.valueOf(Driver.n() == 1));
      case 'f': return set(id, Float.intBitsToFloat(Driver.n()));
      case 'd': return set(id, Double.longBitsToDouble(Driver.in.getLong()));
      case 's': return set(id, Driver.str());
      case '1': return set(id, new Latin1String(Driver.bytes()));
      case 'b': return set(id, Driver.bytes());
      case 'r': {
        String p = Driver.str();
        return set(id, Pattern.compile(p, Driver.n()));
      }
      case 'l':
        switch (op()) {
          case 'a': pending = new ArrayList<Object>(); break;
          case 'k': pending = new LinkedList<Object>(); break;
          default: pending = new Object[Driver.n()];
        }
        return set(id, pending);
      case 'm':
        switch (op()) {
          case 'h': pending = new HashMap<Object, Object>(); break;
          case 'l': pending = new LinkedHashMap<Object, Object>(); break;
          default: pending = new TreeMap<Object, Object>();
        }
        return set(id, pending);
      case 'p': {
        byte k = op();
        String[] s = new String[Driver.n()];
        for (int i = 0; i < s.length; i++) s[i] = Driver.str();
        switch (k) {
          case 'i': return set(id, Arrays.stream(s).mapToInt(Integer::parseInt).toArray());
          case 'l': return set(id, Arrays.stream(s).mapToLong(Long::parseLong).toArray());
          case 'd': return set(id, Arrays.stream(s).mapToDouble(Double::parseDouble).toArray());
          default: return set(id, s);
        }
      }
      case 'R': return set(id, new PerlReference(shell()));
      case 'w': { Object o = shell(); return set(id, new WeakReference<Object>(o)); }
      case 'a': return set(id, new PerlAlias(shell()));
      case 'o': { String name = Driver.str(); return set(id, new PerlObject(name, shell())); }
      case '?': return set(id, new StringBuilder("no"));
      default: throw new Driver.Wrong("object " + (char) t);
    }
  }

  static final Map<String, Encoder> encoders = new HashMap<>();

  static void encode() throws Exception {
    boolean fresh = Driver.n() == 1;
    int from = Driver.in.position();
    EncoderOptions o = options();
    String key = Driver.hex(Driver.in.array(), from, Driver.in.position());
    if (encoders.size() > 100) encoders.clear();
    if (fresh) encoders.remove(key);
    Encoder e = encoders.computeIfAbsent(key, k -> new Encoder(o));
    for (int docs = Driver.n(); docs > 0; docs--) {
      int how = Driver.n();
      ids.clear();
      pending = null;
      Object header = (how & 1) != 0 ? build() : null;
      List<Object> held = new ArrayList<>(ids);
      ids.clear();
      Object body = build();
      try {
        Encoder r = (how & 1) != 0 ? e.write(body, header) : e.write(body);
        if (r != e) throw new Driver.Wrong("write does not return the encoder");
      } catch (SerealException x) {
        Driver.out.write('X');
        Driver.str(String.valueOf(x.getMessage()));
        continue;
      }
      Driver.out.write('D');
      answer(e.getData(), e.getDataReference(), how);
      if (held.size() + ids.size() == -1) throw new Driver.Wrong("held");
    }
  }

  static void answer(byte[] data, ByteArray ref, int how) {
    byte[] r = Arrays.copyOfRange(ref.array, ref.start, ref.start + ref.length);
    if (!Arrays.equals(data, r)) throw new Driver.Wrong("getData and getDataReference differ");
    Driver.str((how & 2) != 0 ? r : data);
  }

  // ---- TokenEncoder ----

  static final Map<String, TokenEncoder> tokenEncoders = new HashMap<>();

  static void write() throws Exception {
    boolean fresh = Driver.n() == 1;
    int from = Driver.in.position();
    EncoderOptions o = options();
    String key = Driver.hex(Driver.in.array(), from, Driver.in.position());
    if (tokenEncoders.size() > 100) tokenEncoders.clear();
    TokenEncoder e = fresh ? null : tokenEncoders.get(key);
    if (e == null) { e = new TokenEncoder(o); tokenEncoders.put(key, e); }
    else e.reset();
    int[] slots = new int[Driver.n()];
    for (;;) {
      byte c = op();
      int next = e.trackOffsetNextValue();
      boolean value = true;
      switch (c) {
        case 'R': e.appendRefNext(); break;
        case 'w': e.appendWeaken(); break;
        case '{': e.startWeaken(Driver.n() == 1); value = false; break;
        case '}': e.endWeaken(); value = false; break;
        case 'P': e.appendRefPrevious(slots[Driver.n()]); break;
        case 'A': e.appendAlias(slots[Driver.n()]); break;
        case 'C': e.appendCopy(slots[Driver.n()]); break;
        case 'l': e.appendLong(Driver.in.getLong()); break;
        case 'u': e.appendUnsignedLong(Driver.in.getLong()); break;
        case 'f': e.appendFloat(Float.intBitsToFloat(Driver.n())); break;
        case 'd': e.appendDouble(Double.longBitsToDouble(Driver.in.getLong())); break;
        case 't': e.appendBoolean(Driver.n() == 1); break;
        case 'U': e.appendUndef(); break;
        case 'K': e.appendCanonicalUndef(); break;
        case 'b': {
          int mode = Driver.n();
          byte[] b = Driver.bytes();
          if (mode == 0) e.appendBinary(b);
          else {
            byte[] w = new byte[b.length + mode + 3];
            Arrays.fill(w, (byte) 'z');
            System.arraycopy(b, 0, w, mode, b.length);
            e.appendBinary(w, mode, b.length);
          }
          break;
        }
        case 's': {
          int mode = Driver.n();
          byte[] b = Driver.bytes();
          String s = new String(b, StandardCharsets.UTF_8);
          char[] ch = ("xy" + s + "z").toCharArray();
          switch (mode) {
            case 0: e.appendString(s); break;
            case 1: e.appendString(s.toCharArray()); break;
            case 2: e.appendString(ch, 2, ch.length - 3); break;
            case 3: e.appendString(new StringBuilder(s)); break;
            case 4: e.appendUTF8(b, 0, b.length); break;
            default: {
              byte[] w = new byte[b.length + 5];
              System.arraycopy(b, 0, w, 2, b.length);
              e.appendUTF8(w, 2, b.length);
            }
          }
          break;
        }
        case 'x': {
          int mode = Driver.n();
          byte[] p = Driver.bytes();
          byte[] f = Driver.bytes();
          if (mode == 0) e.appendRegexpBinary(p, f);
          else if (mode == 1) e.appendRegexpString(new String(p, StandardCharsets.UTF_8), f);
          else {
            int flags = 0;
            for (byte x : f) flags |= x == 'm' ? Pattern.MULTILINE : x == 's' ? Pattern.DOTALL : x == 'i' ? Pattern.CASE_INSENSITIVE : Pattern.COMMENTS;
            e.appendRegexp(Pattern.compile(new String(p, StandardCharsets.UTF_8), flags));
          }
          break;
        }
        case '[': {
          int n = Driver.n();
          if (n < 0) e.startArray(); else e.startArray(n);
          break;
        }
        case '<': {
          int n = Driver.n();
          if (n < 0) e.startArrayValue(); else e.startArrayValue(n);
          break;
        }
        case ']': e.endArray(); value = false; break;
        case '(': {
          int n = Driver.n();
          if (n < 0) e.startHash(); else e.startHash(n);
          break;
        }
        case '=': {
          int n = Driver.n();
          if (n < 0) e.startHashValue(); else e.startHashValue(n);
          break;
        }
        case ')': e.endHash(); value = false; break;
        case 'O': {
          int mode = Driver.n();
          byte[] b = Driver.bytes();
          String s = new String(b, StandardCharsets.UTF_8);
          if (mode == 0) e.startObject(b);
          else if (mode == 1) e.startObject(s);
          else e.startObject(s.toCharArray());
          break;
        }
        case 'o': e.startObject(slots[Driver.n()]); break;
        case 'V': e.startObjectV(slots[Driver.n()]); break;
        case 'E': e.endObject(); value = false; break;
        case 'H': e.startHeader(); value = false; break;
        case 'h': e.endHeader(); value = false; break;
        case 'X': e.startDocument(); value = false; break;
        case 'Y':
          if (!e.isComplete()) throw new Driver.Wrong("isComplete is false at the end");
          e.endDocument();
          value = false;
          break;
        case '!':
          if (e.isComplete()) throw new Driver.Wrong("isComplete is true before the end");
          value = false;
          break;
        case '@': {
          int s = Driver.n();
          slots[s] = e.trackOffsetLastValue() + Driver.n();
          value = false;
          break;
        }
        case '.':
          answer(e.getData(), e.getDataReference(), Driver.n());
          return;
        default: throw new Driver.Wrong("call " + (char) c);
      }
      if (value && e.trackOffsetLastValue() != next) throw new Driver.Wrong("trackOffsetLastValue " + e.trackOffsetLastValue() + ", trackOffsetNextValue was " + next);
    }
  }
}

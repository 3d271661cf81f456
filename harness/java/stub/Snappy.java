package org.xerial.snappy;

/** Stands in where the library is missing. */
public class Snappy {
  private static UnsupportedOperationException none() { return new UnsupportedOperationException("snappy is missing"); }
  public static boolean isValidCompressedBuffer(byte[] b, int off, int len) throws java.io.IOException { throw none(); }
  public static int uncompressedLength(byte[] b, int off, int len) throws java.io.IOException { throw none(); }
  public static int uncompress(byte[] b, int off, int len, byte[] to, int at) throws java.io.IOException { throw none(); }
  public static int maxCompressedLength(int n) { throw none(); }
  public static int compress(byte[] b, int off, int len, byte[] to, int at) throws java.io.IOException { throw none(); }
}

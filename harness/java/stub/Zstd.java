package com.github.luben.zstd;

/** Stands in where the library is missing. */
public class Zstd {
  private static UnsupportedOperationException none() { return new UnsupportedOperationException("zstd is missing"); }
  public static long decompressedSize(byte[] b) { throw none(); }
  public static long decompress(byte[] to, byte[] b) { throw none(); }
  public static boolean isError(long n) { throw none(); }
  public static String getErrorName(long n) { throw none(); }
  public static long compressBound(long n) { throw none(); }
  public static long compressUsingDict(byte[] to, int at, byte[] b, int off, int len, byte[] dict, int level) { throw none(); }
}

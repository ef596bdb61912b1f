package org.apache.hadoop.fs;

import org.apache.hadoop.conf.Configuration;

import java.io.*;
import java.util.*;

/** Stand-in: files in memory, which remember who left them open and fail where they are told to. */
public class FileSystem implements Closeable {
    private static final FileSystem ONLY = new FileSystem();

    /** The observed state. */
    public static final TreeMap<String, byte[]> FILES = new TreeMap<>();
    public static final List<String> OPEN = Collections.synchronizedList(new ArrayList<>());
    public static int opened, created;
    public static long failRead = -1, failWrite = -1;
    public static int pieces;
    public static long blockSize = 1 << 27;
    public static Runnable point;

    public static void reset() {
        synchronized (FILES) {
            FILES.clear();
        }
        OPEN.clear();
        opened = created = 0;
        failRead = failWrite = -1;
        pieces = 0;
        blockSize = 1 << 27;
        point = null;
    }

    public static FileSystem get(Configuration conf) throws IOException { return ONLY; }
    public static FileSystem getLocal(Configuration conf) throws IOException { return ONLY; }

    public boolean exists(Path p) { synchronized (FILES) { return FILES.containsKey(p.toString()); } }
    public boolean delete(Path p, boolean r) { synchronized (FILES) { return FILES.remove(p.toString()) != null; } }
    public boolean mkdirs(Path p) { return true; }
    public boolean rename(Path a, Path b) {
        synchronized (FILES) {
            byte[] x = FILES.remove(a.toString());
            if (x != null) FILES.put(b.toString(), x);
            return x != null;
        }
    }
    public FileStatus getFileStatus(Path p) throws IOException {
        synchronized (FILES) {
            byte[] b = FILES.get(p.toString());
            if (b == null) throw new FileNotFoundException("File does not exist: " + p);
            return new FileStatus(p, b.length);
        }
    }
    public FileStatus[] listStatus(Path dir) throws IOException {
        List<FileStatus> out = new ArrayList<>();
        synchronized (FILES) {
            for (Map.Entry<String, byte[]> e : FILES.entrySet())
                if (e.getKey().equals(dir.toString()) || e.getKey().startsWith(dir + "/")) out.add(new FileStatus(new Path(e.getKey()), e.getValue().length));
        }
        if (out.isEmpty()) throw new FileNotFoundException("File does not exist: " + dir);
        return out.toArray(new FileStatus[0]);
    }
    public FSDataInputStream open(Path p) throws IOException { return open(p, 4096); }
    public FSDataInputStream open(Path p, int bufferSize) throws IOException {
        getFileStatus(p);
        byte[] data;
        synchronized (FILES) { data = FILES.get(p.toString()); }
        opened++;
        OPEN.add("read " + p);
        return new FSDataInputStream(new In(p, data));
    }
    public FSDataOutputStream create(Path p) throws IOException { return create(p, true); }
    public FSDataOutputStream create(Path p, boolean overwrite) throws IOException {
        if (!overwrite && exists(p)) throw new IOException("File already exists: " + p);
        created++;
        OPEN.add("write " + p);
        synchronized (FILES) { FILES.put(p.toString(), new byte[0]); }
        return new FSDataOutputStream(new Out(p));
    }
    public FSDataOutputStream create(Path p, boolean overwrite, int bufferSize) throws IOException { return create(p, overwrite); }
    @Override public void close() { }

    static void point() {
        Runnable r = point;
        if (r != null) r.run();
    }

    static final class In extends InputStream implements Seekable, PositionedReadable {
        final Path path;
        final byte[] data;
        int pos, calls;
        boolean closed;

        In(Path path, byte[] data) { this.path = path; this.data = data; }
        private void alive(int n) throws IOException {
            point();
            if (closed) throw new IOException("Stream closed");
            if (failRead >= 0 && pos + n > failRead) throw new IOException("injected: the storage fails");
        }
        @Override public int read() throws IOException {
            alive(1);
            return pos < data.length ? data[pos++] & 0xff : -1;
        }
        @Override public int read(byte[] b, int off, int len) throws IOException {
            Objects.checkFromIndexSize(off, len, b.length);
            alive(Math.min(1, len));
            if (len == 0) return 0;
            if (pos >= data.length) return -1;
            int n = Math.min(len, data.length - pos);
            if (pieces > 0) n = Math.min(n, 1 + Math.floorMod(calls++ * 7919 + pos, pieces));
            if (failRead > pos) n = (int) Math.min(n, failRead - pos);
            System.arraycopy(data, pos, b, off, n);
            pos += n;
            return n;
        }
        @Override public int available() { return data.length - pos; }
        @Override public void seek(long p) throws IOException {
            if (closed) throw new IOException("Stream closed");
            if (p < 0 || p > data.length) throw new EOFException("Cannot seek to " + p);
            pos = (int) p;
        }
        @Override public long getPos() throws IOException {
            if (closed) throw new IOException("Stream closed");
            return pos;
        }
        @Override public boolean seekToNewSource(long t) { return false; }
        @Override public int read(long p, byte[] b, int off, int len) throws IOException {
            alive(0);
            if (p >= data.length) return -1;
            int n = (int) Math.min(len, data.length - p);
            System.arraycopy(data, (int) p, b, off, n);
            return n;
        }
        @Override public void readFully(long p, byte[] b, int off, int len) throws IOException {
            if (read(p, b, off, len) < len) throw new EOFException();
        }
        @Override public void readFully(long p, byte[] b) throws IOException { readFully(p, b, 0, b.length); }
        @Override public void close() {
            if (!closed) OPEN.remove("read " + path);
            closed = true;
        }
    }

    /** As in HDFS, what was written is there for sure once the file was closed. */
    static final class Out extends OutputStream {
        final Path path;
        final ByteArrayOutputStream buf = new ByteArrayOutputStream();
        boolean closed;

        Out(Path path) { this.path = path; }
        private void alive(int n) throws IOException {
            point();
            if (closed) throw new IOException("Stream closed");
            if (failWrite >= 0 && buf.size() + n > failWrite) throw new IOException("injected: the storage fails");
        }
        @Override public void write(int b) throws IOException { alive(1); buf.write(b); }
        @Override public void write(byte[] b, int off, int len) throws IOException { alive(len); buf.write(b, off, len); }
        @Override public void flush() throws IOException {
            if (closed) throw new IOException("Stream closed");
        }
        @Override public void close() {
            if (closed) return;
            closed = true;
            OPEN.remove("write " + path);
            synchronized (FILES) { FILES.put(path.toString(), buf.toByteArray()); }
        }
    }
}

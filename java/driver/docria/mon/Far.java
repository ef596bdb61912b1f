package docria.mon;

import java.io.ByteArrayOutputStream;
import java.io.IOException;
import java.io.InputStream;
import java.io.OutputStream;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;

import se.lth.cs.docria.io.BoundaryReader;
import se.lth.cs.docria.io.BoundaryWriter;

/** Boundary streams of several GiB, without holding them. */
final class Far {
    private Far() {}

    /** Keeps the position and the four bytes at every multiple of the segment size. */
    static final class Sink extends OutputStream {
        final long size;
        final byte[] head = new byte[1];
        final List<byte[]> markers = new ArrayList<>();
        long pos;

        Sink(long size) { this.size = size; }

        private void one(long at, byte x) {
            if (at == 0) head[0] = x;
            if (at >= size && at % size < 4) {
                int k = (int) (at / size) - 1;
                while (markers.size() <= k) markers.add(new byte[4]);
                markers.get(k)[(int) (at % size)] = x;
            }
        }

        @Override public void write(int x) { one(pos++, (byte) x); }

        @Override public void write(byte[] b, int off, int len) {
            if (pos == 0 && len > 0) one(0, b[off]);
            long end = pos + len;
            for (long m = pos / size * size; m < end; m += size)
                for (long at = m; at < m + 4; at++)
                    if (at >= pos && at < end) one(at, b[off + (int) (at - pos)]);
            pos = end;
        }
    }

    /** What a stream of any length holds at a logical position. */
    static byte payload(long p) { return (byte) ((p * 0x9E3779B97F4A7C15L) >>> 33); }

    static long logical(long physical, long size) { return physical - 1 - 4 * (physical / size); }

    static final class Source extends InputStream {
        final int boundary;
        final long size, length;
        long pos;

        Source(int boundary, long length) {
            this.boundary = boundary;
            this.size = 1L << boundary;
            this.length = length;
        }

        @Override public int read() {
            if (pos >= length) return -1;
            long at = pos++;
            if (at == 0) return boundary;
            if (at >= size && at % size < 4) return 0xee;
            return payload(logical(at, size)) & 0xff;
        }

        @Override public int read(byte[] b, int off, int len) {
            if (len == 0) return 0;
            if (pos >= length) return -1;
            int n = (int) Math.min(len, length - pos);
            for (int k = 0; k < n; k++) b[off + k] = (byte) read();
            return n;
        }

        @Override public long skip(long n) {
            long k = Math.max(0, Math.min(n, length - pos));
            pos += k;
            return k;
        }

        @Override public int available() { return (int) Math.min(1 << 20, length - pos); }
    }

    /** ["far write", boundary, [[bytes to write (zeros), split?]...]] : position, head, markers */
    static Object write(List<Object> c) throws IOException {
        int b = ((Long) c.get(1)).intValue();
        Sink sink = new Sink(1L << b);
        BoundaryWriter w = new BoundaryWriter(sink, b);
        byte[] zeros = new byte[1 << 26];
        for (Object o : Commands.l(c.get(2))) {
            List<Object> op = Commands.l(o);
            for (long left = (Long) op.get(0); left > 0; left -= zeros.length) w.write(zeros, 0, (int) Math.min(left, zeros.length));
            if ((Boolean) op.get(1)) w.split();
        }
        w.close();
        return Arrays.asList(sink.pos, sink.head, sink.markers);
    }

    /** ["far read", boundary, physical length, [[bytes to skip, bytes to read]...]] : [position, bytes as asked for?, bytes] */
    static Object read(List<Object> c) throws IOException {
        int b = ((Long) c.get(1)).intValue();
        BoundaryReader r = new BoundaryReader(new Source(b, (Long) c.get(2)));
        long pos = 0;
        List<Object> out = new ArrayList<>();
        for (Object o : Commands.l(c.get(3))) {
            List<Object> op = Commands.l(o);
            for (long left = (Long) op.get(0); left > 0; ) {
                long n = r.skip(left);
                if (n <= 0) {
                    if (r.read() < 0) break;
                    n = 1;
                }
                left -= n;
                pos += n;
            }
            ByteArrayOutputStream got = new ByteArrayOutputStream();
            boolean good = true;
            byte[] buf = new byte[((Long) op.get(1)).intValue()];
            while (got.size() < buf.length) {
                int n = r.read(buf, 0, buf.length - got.size());
                if (n < 0) break;
                for (int k = 0; k < n; k++) good &= buf[k] == payload(pos + k);
                got.write(buf, 0, n);
                pos += n;
            }
            out.add(Arrays.asList(pos, good, got.size()));
        }
        return out;
    }
}

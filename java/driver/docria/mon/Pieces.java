package docria.mon;

import java.io.IOException;
import java.io.InputStream;
import java.util.Random;

/** A stream that delivers its bytes in pieces, like files and sockets may, and fails where it is told to. */
final class Pieces extends InputStream {
    final byte[] data;
    final Random rng;
    final int most;
    final long fail;
    int pos;
    boolean closed;

    Pieces(byte[] data, long seed, int most, long fail) {
        this.data = data;
        this.rng = new Random(seed);
        this.most = most;
        this.fail = fail;
    }

    private int piece(int len) {
        return most <= 0 ? len : Math.min(len, 1 + rng.nextInt(most));
    }

    private void fail(int n) throws IOException {
        if (fail >= 0 && pos + n > fail) throw new IOException("injected: the storage fails");
    }

    @Override
    public int read() throws IOException {
        if (pos >= data.length) return -1;
        fail(1);
        return data[pos++] & 0xff;
    }

    @Override
    public int read(byte[] b, int off, int len) throws IOException {
        if (off < 0 || len < 0 || len > b.length - off) throw new IndexOutOfBoundsException();
        if (len == 0) return 0;
        if (pos >= data.length) return -1;
        int n = piece(Math.min(len, data.length - pos));
        if (fail >= 0 && fail > pos) n = (int) Math.min(n, fail - pos);
        else fail(n);
        System.arraycopy(data, pos, b, off, n);
        pos += n;
        return n;
    }

    @Override
    public long skip(long n) {
        if (n <= 0) return 0;
        int k = piece((int) Math.min(n, data.length - pos));
        if (pos >= data.length) return 0;
        pos += k;
        return k;
    }

    @Override
    public int available() { return most <= 0 ? data.length - pos : Math.min(most, data.length - pos); }

    @Override
    public void close() { closed = true; }
}

package org.msgpack.core.buffer;

import java.io.IOException;
import java.io.InputStream;

public class InputStreamBufferInput implements MessageBufferInput {
    private final InputStream in;

    public InputStreamBufferInput(InputStream in) { this.in = in; }

    public InputStreamBufferInput(InputStream in, int bufferSize) { this(in); }

    @Override
    public MessageBuffer next() throws IOException {
        byte[] b = new byte[8192];
        int n = in.read(b);
        return n == -1 ? null : MessageBuffer.wrap(b, 0, n);
    }

    @Override
    public void close() throws IOException { in.close(); }
}

package org.msgpack.core.buffer;

import java.io.IOException;
import java.io.OutputStream;

public class OutputStreamBufferOutput implements MessageBufferOutput {
    private final OutputStream out;
    private MessageBuffer last;

    public OutputStreamBufferOutput(OutputStream out) { this.out = out; }

    public OutputStreamBufferOutput(OutputStream out, int bufferSize) { this(out); }

    @Override
    public MessageBuffer next(int minimumSize) { return last = MessageBuffer.allocate(Math.max(8192, minimumSize)); }

    @Override
    public void writeBuffer(int length) throws IOException { write(last.array(), 0, length); }

    @Override
    public void write(byte[] buffer, int offset, int length) throws IOException { out.write(buffer, offset, length); }

    @Override
    public void add(byte[] buffer, int offset, int length) throws IOException { write(buffer, offset, length); }

    @Override
    public void close() throws IOException { out.close(); }

    @Override
    public void flush() throws IOException { out.flush(); }
}

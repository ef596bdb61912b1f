package org.apache.hadoop.fs;

import java.io.DataOutputStream;
import java.io.IOException;
import java.io.OutputStream;

public class FSDataOutputStream extends DataOutputStream {
    private long pos;
    public FSDataOutputStream(OutputStream out) { super(out); }
    @Override public void write(int b) throws IOException { out.write(b); pos++; }
    @Override public void write(byte[] b, int off, int len) throws IOException { out.write(b, off, len); pos += len; }
    public long getPos() { return pos; }
    public void hflush() throws IOException { out.flush(); }
    public void hsync() throws IOException { out.flush(); }
    public void sync() throws IOException { out.flush(); }
    @Override public void close() throws IOException { out.close(); }
    public OutputStream getWrappedStream() { return out; }
}

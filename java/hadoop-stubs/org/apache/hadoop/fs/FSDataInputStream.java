package org.apache.hadoop.fs;

import java.io.DataInputStream;
import java.io.IOException;
import java.io.InputStream;

public class FSDataInputStream extends DataInputStream implements Seekable, PositionedReadable {
    public FSDataInputStream(InputStream in) {
        super(in);
        if (!(in instanceof Seekable) || !(in instanceof PositionedReadable))
            throw new IllegalArgumentException("In is not an instance of Seekable or PositionedReadable");
    }
    @Override public void seek(long pos) throws IOException { ((Seekable) in).seek(pos); }
    @Override public long getPos() throws IOException { return ((Seekable) in).getPos(); }
    @Override public boolean seekToNewSource(long t) throws IOException { return ((Seekable) in).seekToNewSource(t); }
    @Override public int read(long p, byte[] b, int off, int len) throws IOException { return ((PositionedReadable) in).read(p, b, off, len); }
    @Override public void readFully(long p, byte[] b, int off, int len) throws IOException { ((PositionedReadable) in).readFully(p, b, off, len); }
    @Override public void readFully(long p, byte[] b) throws IOException { ((PositionedReadable) in).readFully(p, b, 0, b.length); }
    public InputStream getWrappedStream() { return in; }
}

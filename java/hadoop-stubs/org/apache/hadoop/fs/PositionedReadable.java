package org.apache.hadoop.fs;

import java.io.IOException;

public interface PositionedReadable {
    int read(long position, byte[] buffer, int offset, int length) throws IOException;
    void readFully(long position, byte[] buffer, int offset, int length) throws IOException;
    void readFully(long position, byte[] buffer) throws IOException;
}

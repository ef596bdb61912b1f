package org.apache.hadoop.fs;

public class FileStatus {
    private final Path path;
    private final long len;
    public FileStatus(Path path, long len) { this.path = path; this.len = len; }
    public Path getPath() { return path; }
    public long getLen() { return len; }
    public boolean isFile() { return true; }
    public boolean isDirectory() { return false; }
    public long getBlockSize() { return FileSystem.blockSize; }
}

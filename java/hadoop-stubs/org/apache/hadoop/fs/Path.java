package org.apache.hadoop.fs;

import org.apache.hadoop.conf.Configuration;

import java.io.IOException;
import java.net.URI;

public class Path implements Comparable<Path> {
    private final String path;

    public Path(String path) {
        if (path == null || path.isEmpty()) throw new IllegalArgumentException("Can not create a Path from an empty string");
        this.path = path.length() > 1 && path.endsWith("/") ? path.substring(0, path.length() - 1) : path;
    }
    public Path(String parent, String child) { this(parent + "/" + child); }
    public Path(Path parent, String child) { this(parent.path + "/" + child); }
    public Path(Path parent, Path child) { this(parent.path + "/" + child.path); }

    public String getName() { return path.substring(path.lastIndexOf('/') + 1); }
    public Path getParent() { int k = path.lastIndexOf('/'); return k <= 0 ? null : new Path(path.substring(0, k)); }
    public Path suffix(String s) { return new Path(path + s); }
    public URI toUri() { return URI.create(path); }
    public FileSystem getFileSystem(Configuration conf) throws IOException { return FileSystem.get(conf); }
    @Override public String toString() { return path; }
    @Override public boolean equals(Object o) { return o instanceof Path && ((Path) o).path.equals(path); }
    @Override public int hashCode() { return path.hashCode(); }
    @Override public int compareTo(Path o) { return path.compareTo(o.path); }
}

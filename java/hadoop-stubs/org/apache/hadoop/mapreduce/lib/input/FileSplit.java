package org.apache.hadoop.mapreduce.lib.input;

import org.apache.hadoop.fs.Path;
import org.apache.hadoop.io.Writable;
import org.apache.hadoop.mapreduce.InputSplit;

import java.io.DataInput;
import java.io.DataOutput;
import java.io.IOException;

public class FileSplit extends InputSplit implements Writable {
    private Path file;
    private long start, length;
    public FileSplit() { }
    public FileSplit(Path file, long start, long length, String[] hosts) { this.file = file; this.start = start; this.length = length; }
    public Path getPath() { return file; }
    public long getStart() { return start; }
    @Override public long getLength() { return length; }
    @Override public String[] getLocations() { return new String[0]; }
    @Override public void write(DataOutput out) throws IOException { out.writeUTF(file.toString()); out.writeLong(start); out.writeLong(length); }
    @Override public void readFields(DataInput in) throws IOException { file = new Path(in.readUTF()); start = in.readLong(); length = in.readLong(); }
    @Override public String toString() { return file + ":" + start + "+" + length; }
}

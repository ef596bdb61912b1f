package org.apache.hadoop.io;

import java.io.DataInput;
import java.io.DataOutput;

public class NullWritable implements WritableComparable<NullWritable> {
    private static final NullWritable THIS = new NullWritable();
    private NullWritable() { }
    public static NullWritable get() { return THIS; }
    @Override public int compareTo(NullWritable o) { return 0; }
    @Override public void write(DataOutput out) { }
    @Override public void readFields(DataInput in) { }
    @Override public String toString() { return "(null)"; }
}

package org.apache.hadoop.io;

import java.io.DataInput;
import java.io.DataOutput;
import java.io.IOException;
import java.nio.charset.StandardCharsets;

public class Text implements WritableComparable<Text> {
    private byte[] bytes = new byte[0];
    public Text() { }
    public Text(String s) { set(s); }
    public void set(String s) { bytes = s.getBytes(StandardCharsets.UTF_8); }
    public byte[] getBytes() { return bytes; }
    public int getLength() { return bytes.length; }
    @Override public int compareTo(Text o) { return toString().compareTo(o.toString()); }
    @Override public void write(DataOutput out) throws IOException { out.writeInt(bytes.length); out.write(bytes); }
    @Override public void readFields(DataInput in) throws IOException { bytes = new byte[in.readInt()]; in.readFully(bytes); }
    @Override public String toString() { return new String(bytes, StandardCharsets.UTF_8); }
}

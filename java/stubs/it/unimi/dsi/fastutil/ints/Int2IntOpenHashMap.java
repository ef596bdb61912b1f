package it.unimi.dsi.fastutil.ints;

import java.util.*;

public class Int2IntOpenHashMap extends HashMap<Integer, Integer> {
    private int missing;

    public Int2IntOpenHashMap() { }
    public Int2IntOpenHashMap(int expected) { }

    public void defaultReturnValue(int v) { missing = v; }
    public int put(int k, int v) { Integer o = super.put(k, Box.of(v)); return o == null ? missing : o; }
    public int get(int k) { Integer o = super.get(k); return o == null ? missing : o; }
    public boolean containsKey(int k) { return super.containsKey((Object) k); }
    public int remove(int k) { Integer o = super.remove((Object) k); return o == null ? missing : o; }

    private static class Box { static Integer of(int v) { return v; } }
}

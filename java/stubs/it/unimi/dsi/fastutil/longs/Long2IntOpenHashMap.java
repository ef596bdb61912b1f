package it.unimi.dsi.fastutil.longs;

import java.util.*;

public class Long2IntOpenHashMap extends HashMap<Long, Integer> {
    private int missing;

    public Long2IntOpenHashMap() { }
    public Long2IntOpenHashMap(int expected) { }

    public void defaultReturnValue(int v) { missing = v; }
    public int put(long k, int v) { Integer o = super.put(k, Box.of(v)); return o == null ? missing : o; }
    public int get(long k) { Integer o = super.get(k); return o == null ? missing : o; }
    public boolean containsKey(long k) { return super.containsKey((Object) k); }
    public int remove(long k) { Integer o = super.remove((Object) k); return o == null ? missing : o; }

    private static class Box { static Integer of(int v) { return v; } }
}

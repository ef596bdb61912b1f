package it.unimi.dsi.fastutil.ints;

import java.util.*;

public class Int2LongOpenHashMap extends HashMap<Integer, Long> {
    private long missing;

    public Int2LongOpenHashMap() { }
    public Int2LongOpenHashMap(int expected) { }

    public void defaultReturnValue(long v) { missing = v; }
    public long put(int k, long v) { Long o = super.put(k, Box.of(v)); return o == null ? missing : o; }
    public long get(int k) { Long o = super.get(k); return o == null ? missing : o; }
    public boolean containsKey(int k) { return super.containsKey((Object) k); }
    public long remove(int k) { Long o = super.remove((Object) k); return o == null ? missing : o; }

    private static class Box { static Long of(long v) { return v; } }
}

package it.unimi.dsi.fastutil.longs;

import java.util.*;

public class Long2LongOpenHashMap extends HashMap<Long, Long> {
    private long missing;

    public Long2LongOpenHashMap() { }
    public Long2LongOpenHashMap(int expected) { }

    public void defaultReturnValue(long v) { missing = v; }
    public long put(long k, long v) { Long o = super.put(k, Box.of(v)); return o == null ? missing : o; }
    public long get(long k) { Long o = super.get(k); return o == null ? missing : o; }
    public boolean containsKey(long k) { return super.containsKey((Object) k); }
    public long remove(long k) { Long o = super.remove((Object) k); return o == null ? missing : o; }

    private static class Box { static Long of(long v) { return v; } }
}

package it.unimi.dsi.fastutil.objects;

import java.util.*;

public class Object2LongOpenHashMap<K> extends HashMap<K, Long> {
    private long missing;

    public Object2LongOpenHashMap() { }
    public Object2LongOpenHashMap(int expected) { }

    public void defaultReturnValue(long v) { missing = v; }
    public long put(K k, long v) { Long o = super.put(k, (Long) v); return o == null ? missing : o; }
    public long getLong(Object k) { Long o = super.get(k); return o == null ? missing : o; }
    public long removeLong(Object k) { Long o = super.remove(k); return o == null ? missing : o; }
    public long addTo(K k, long d) { long o = getLong(k); put(k, (long) (o + d)); return o; }
}

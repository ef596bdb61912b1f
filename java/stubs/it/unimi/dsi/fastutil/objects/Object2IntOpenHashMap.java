package it.unimi.dsi.fastutil.objects;

import java.util.*;

public class Object2IntOpenHashMap<K> extends HashMap<K, Integer> {
    private int missing;

    public Object2IntOpenHashMap() { }
    public Object2IntOpenHashMap(int expected) { }

    public void defaultReturnValue(int v) { missing = v; }
    public int put(K k, int v) { Integer o = super.put(k, (Integer) v); return o == null ? missing : o; }
    public int getInt(Object k) { Integer o = super.get(k); return o == null ? missing : o; }
    public int removeInt(Object k) { Integer o = super.remove(k); return o == null ? missing : o; }
    public int addTo(K k, int d) { int o = getInt(k); put(k, (int) (o + d)); return o; }
}

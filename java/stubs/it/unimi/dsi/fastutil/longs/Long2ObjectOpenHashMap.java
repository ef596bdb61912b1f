package it.unimi.dsi.fastutil.longs;

import java.util.*;

public class Long2ObjectOpenHashMap<V> extends AbstractMap<Long, V> implements Long2ObjectMap<V> {
    private final HashMap<Long, V> m = new HashMap<>();

    public Long2ObjectOpenHashMap() { }
    public Long2ObjectOpenHashMap(int expected) { }
    public Long2ObjectOpenHashMap(Map<? extends Long, ? extends V> o) { m.putAll(o); }

    @Override public V put(Long k, V v) { return m.put(k, v); }
    @Override public V put(long k, V v) { return m.put(k, v); }
    @Override public V get(Object k) { return m.get(k); }
    @Override public V get(long k) { return m.get(k); }
    @Override public boolean containsKey(Object k) { return m.containsKey(k); }
    @Override public boolean containsKey(long k) { return m.containsKey(k); }
    @Override public V remove(Object k) { return m.remove(k); }
    @Override public V remove(long k) { return m.remove(k); }
    @Override public int size() { return m.size(); }
    @Override public void clear() { m.clear(); }
    @Override public Set<Map.Entry<Long, V>> entrySet() { return m.entrySet(); }
    @Override public Collection<V> values() { return m.values(); }
    @Override public LongSet keySet() {
        return new AbstractLongSet_() {
            @Override Set<Long> base() { return m.keySet(); }
        };
    }
}

package it.unimi.dsi.fastutil.ints;

import java.util.*;

public class Int2ObjectLinkedOpenHashMap<V> extends AbstractMap<Integer, V> implements Int2ObjectMap<V> {
    private final LinkedHashMap<Integer, V> m = new LinkedHashMap<>();

    public Int2ObjectLinkedOpenHashMap() { }
    public Int2ObjectLinkedOpenHashMap(int expected) { }
    public Int2ObjectLinkedOpenHashMap(Map<? extends Integer, ? extends V> o) { m.putAll(o); }

    @Override public V put(Integer k, V v) { return m.put(k, v); }
    @Override public V put(int k, V v) { return m.put(k, v); }
    @Override public V get(Object k) { return m.get(k); }
    @Override public V get(int k) { return m.get(k); }
    @Override public boolean containsKey(Object k) { return m.containsKey(k); }
    @Override public boolean containsKey(int k) { return m.containsKey(k); }
    @Override public V remove(Object k) { return m.remove(k); }
    @Override public V remove(int k) { return m.remove(k); }
    @Override public int size() { return m.size(); }
    @Override public void clear() { m.clear(); }
    @Override public Set<Map.Entry<Integer, V>> entrySet() { return m.entrySet(); }
    @Override public Collection<V> values() { return m.values(); }
    @Override public IntSet keySet() {
        return new AbstractIntSet_() {
            @Override Set<Integer> base() { return m.keySet(); }
        };
    }
}

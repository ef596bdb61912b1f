package it.unimi.dsi.fastutil.ints;

import java.util.*;

public interface Int2ObjectMap<V> extends Map<Integer, V> {
    interface Entry<V> extends Map.Entry<Integer, V> {
        default int getIntKey() { return getKey(); }
    }

    V put(int k, V v);
    V get(int k);
    boolean containsKey(int k);
    V remove(int k);
    @Override IntSet keySet();

    default Set<Entry<V>> int2ObjectEntrySet() {
        Set<Entry<V>> out = new LinkedHashSet<>();
        for (Map.Entry<Integer, V> e : entrySet())
            out.add(new Entry<V>() {
                @Override public Integer getKey() { return e.getKey(); }
                @Override public V getValue() { return e.getValue(); }
                @Override public V setValue(V v) { return e.setValue(v); }
            });
        return out;
    }
}

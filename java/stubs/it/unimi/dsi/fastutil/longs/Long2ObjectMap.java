package it.unimi.dsi.fastutil.longs;

import java.util.*;

public interface Long2ObjectMap<V> extends Map<Long, V> {
    interface Entry<V> extends Map.Entry<Long, V> {
        default long getLongKey() { return getKey(); }
    }

    V put(long k, V v);
    V get(long k);
    boolean containsKey(long k);
    V remove(long k);
    @Override LongSet keySet();

    default Set<Entry<V>> long2ObjectEntrySet() {
        Set<Entry<V>> out = new LinkedHashSet<>();
        for (Map.Entry<Long, V> e : entrySet())
            out.add(new Entry<V>() {
                @Override public Long getKey() { return e.getKey(); }
                @Override public V getValue() { return e.getValue(); }
                @Override public V setValue(V v) { return e.setValue(v); }
            });
        return out;
    }
}

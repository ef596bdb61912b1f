package it.unimi.dsi.fastutil.objects;

import java.util.*;

public class ReferenceOpenHashSet<K> extends AbstractSet<K> {
    private final Set<K> s = Collections.newSetFromMap(new IdentityHashMap<>());
    @Override public int size() { return s.size(); }
    @Override public boolean add(K k) { return s.add(k); }
    @Override public boolean contains(Object k) { return s.contains(k); }
    @Override public boolean remove(Object k) { return s.remove(k); }
    @Override public Iterator<K> iterator() { return s.iterator(); }
}

package it.unimi.dsi.fastutil.objects;

import java.util.*;

public class ObjectOpenHashSet<K> extends HashSet<K> {
    public ObjectOpenHashSet() { }
    public ObjectOpenHashSet(Collection<? extends K> c) { super(c); }
    public ObjectOpenHashSet(int n) { super(n); }
}

package it.unimi.dsi.fastutil.objects;

import java.util.*;

public class ObjectLinkedOpenHashSet<K> extends LinkedHashSet<K> {
    public ObjectLinkedOpenHashSet() { }
    public ObjectLinkedOpenHashSet(Collection<? extends K> c) { super(c); }
    public ObjectLinkedOpenHashSet(int n) { super(n); }
}

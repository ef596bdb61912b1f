package it.unimi.dsi.fastutil.objects;

import java.util.*;

public class Object2ObjectOpenHashMap<K, V> extends HashMap<K, V> {
    public Object2ObjectOpenHashMap() { }
    public Object2ObjectOpenHashMap(int n) { super(n); }
    public Object2ObjectOpenHashMap(Map<? extends K, ? extends V> m) { super(m); }
}

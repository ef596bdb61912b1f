package it.unimi.dsi.fastutil.objects;

import java.util.*;

public class ObjectArrayList<K> extends ArrayList<K> {
    public ObjectArrayList() { }
    public ObjectArrayList(Collection<? extends K> c) { super(c); }
    public ObjectArrayList(int n) { super(n); }
}

package it.unimi.dsi.fastutil.ints;

import java.util.*;

public class IntOpenHashSet extends AbstractIntSet_ {
    private final Set<Integer> s = new HashSet<>();

    public IntOpenHashSet() { }
    public IntOpenHashSet(int expected) { }
    public IntOpenHashSet(Collection<? extends Integer> c) { s.addAll(c); }
    public IntOpenHashSet(int[] v) { for (int x : v) s.add(x); }

    @Override Set<Integer> base() { return s; }
}

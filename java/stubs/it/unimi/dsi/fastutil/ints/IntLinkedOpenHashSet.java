package it.unimi.dsi.fastutil.ints;

import java.util.*;

public class IntLinkedOpenHashSet extends AbstractIntSet_ {
    private final Set<Integer> s = new LinkedHashSet<>();

    public IntLinkedOpenHashSet() { }
    public IntLinkedOpenHashSet(int expected) { }
    public IntLinkedOpenHashSet(Collection<? extends Integer> c) { s.addAll(c); }
    public IntLinkedOpenHashSet(int[] v) { for (int x : v) s.add(x); }

    @Override Set<Integer> base() { return s; }
}

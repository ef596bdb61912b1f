package it.unimi.dsi.fastutil.longs;

import java.util.*;

public class LongLinkedOpenHashSet extends AbstractLongSet_ {
    private final Set<Long> s = new LinkedHashSet<>();

    public LongLinkedOpenHashSet() { }
    public LongLinkedOpenHashSet(int expected) { }
    public LongLinkedOpenHashSet(Collection<? extends Long> c) { s.addAll(c); }
    public LongLinkedOpenHashSet(long[] v) { for (long x : v) s.add(x); }

    @Override Set<Long> base() { return s; }
}

package it.unimi.dsi.fastutil.longs;

import java.util.*;

public class LongOpenHashSet extends AbstractLongSet_ {
    private final Set<Long> s = new HashSet<>();

    public LongOpenHashSet() { }
    public LongOpenHashSet(int expected) { }
    public LongOpenHashSet(Collection<? extends Long> c) { s.addAll(c); }
    public LongOpenHashSet(long[] v) { for (long x : v) s.add(x); }

    @Override Set<Long> base() { return s; }
}

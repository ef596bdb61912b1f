package it.unimi.dsi.fastutil.longs;

import java.util.*;

public interface LongCollection extends Collection<Long>, LongIterable {
    @Override LongIterator iterator();
    boolean add(long k);
    boolean contains(long k);
    boolean rem(long k);

    default long[] toLongArray() {
        long[] out = new long[size()];
        int i = 0;
        for (Long x : this) out[i++] = x;
        return out;
    }
}

package it.unimi.dsi.fastutil.longs;

import java.util.*;

public interface LongSet extends LongCollection, Set<Long> {
    @Override LongIterator iterator();
    boolean remove(long k);
}

package it.unimi.dsi.fastutil.longs;

import java.util.*;

public interface LongSortedSet extends LongSet, SortedSet<Long> {
    @Override LongBidirectionalIterator iterator();
    long firstLong();
    long lastLong();
}

package it.unimi.dsi.fastutil.longs;

import java.util.*;

public interface LongList extends LongCollection, List<Long> {
    @Override LongListIterator iterator();
    long getLong(int k);
    long set(int k, long v);
}

package it.unimi.dsi.fastutil.ints;

import java.util.*;

public interface IntSortedSet extends IntSet, SortedSet<Integer> {
    @Override IntBidirectionalIterator iterator();
    int firstInt();
    int lastInt();
}

package it.unimi.dsi.fastutil.ints;

import java.util.*;

public interface IntSet extends IntCollection, Set<Integer> {
    @Override IntIterator iterator();
    boolean remove(int k);
}

package it.unimi.dsi.fastutil.ints;

import java.util.*;

public interface IntList extends IntCollection, List<Integer> {
    @Override IntListIterator iterator();
    int getInt(int k);
    int set(int k, int v);
}

package it.unimi.dsi.fastutil.ints;

import java.util.*;

public interface IntCollection extends Collection<Integer>, IntIterable {
    @Override IntIterator iterator();
    boolean add(int k);
    boolean contains(int k);
    boolean rem(int k);

    default int[] toIntArray() {
        int[] out = new int[size()];
        int i = 0;
        for (Integer x : this) out[i++] = x;
        return out;
    }
}

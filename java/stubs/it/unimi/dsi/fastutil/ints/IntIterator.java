package it.unimi.dsi.fastutil.ints;

import java.util.*;

public interface IntIterator extends Iterator<Integer> {
    default int nextInt() { return next(); }

    default int skip(int n) {
        int k = 0;
        for (; k < n && hasNext(); k++) next();
        return k;
    }
}

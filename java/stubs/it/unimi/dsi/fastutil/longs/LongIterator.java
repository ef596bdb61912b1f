package it.unimi.dsi.fastutil.longs;

import java.util.*;

public interface LongIterator extends Iterator<Long> {
    default long nextLong() { return next(); }

    default int skip(int n) {
        int k = 0;
        for (; k < n && hasNext(); k++) next();
        return k;
    }
}

package it.unimi.dsi.fastutil.ints;

import java.util.*;

public interface IntBidirectionalIterator extends IntIterator {
    boolean hasPrevious();
    Integer previous();

    default int previousInt() { return previous(); }
}

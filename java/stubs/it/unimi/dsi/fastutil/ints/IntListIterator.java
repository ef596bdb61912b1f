package it.unimi.dsi.fastutil.ints;

import java.util.*;

public interface IntListIterator extends ListIterator<Integer>, IntBidirectionalIterator {
    @Override boolean hasPrevious();
    @Override Integer previous();
    @Override boolean hasNext();
    @Override Integer next();
    @Override void remove();
}

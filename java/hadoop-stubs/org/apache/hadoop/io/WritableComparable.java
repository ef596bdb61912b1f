package org.apache.hadoop.io;

public interface WritableComparable<T> extends Writable, Comparable<T> { }

package org.apache.hadoop.conf;

public interface Configurable {
    void setConf(Configuration conf);
    Configuration getConf();
}

package org.apache.hadoop.mapreduce.task;

import org.apache.hadoop.conf.Configuration;
import org.apache.hadoop.mapreduce.TaskAttemptContext;
import org.apache.hadoop.mapreduce.TaskAttemptID;

public class TaskAttemptContextImpl implements TaskAttemptContext {
    private final Configuration conf;
    private final TaskAttemptID id;
    private String status = "";
    public TaskAttemptContextImpl(Configuration conf, TaskAttemptID id) { this.conf = conf; this.id = id; }
    @Override public Configuration getConfiguration() { return conf; }
    @Override public String getJobName() { return "job"; }
    @Override public TaskAttemptID getTaskAttemptID() { return id; }
    @Override public void setStatus(String msg) { status = msg; }
    @Override public String getStatus() { return status; }
    @Override public float getProgress() { return 0; }
    @Override public void progress() { }
}

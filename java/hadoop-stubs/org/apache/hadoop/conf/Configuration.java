package org.apache.hadoop.conf;

import java.util.*;

/** Stand-in for the class of the same name: named settings. */
public class Configuration implements Iterable<Map.Entry<String, String>> {
    private final Map<String, String> map = new TreeMap<>();

    public Configuration() { }
    public Configuration(boolean loadDefaults) { }
    public Configuration(Configuration other) { map.putAll(other.map); }

    public String get(String name) { return map.get(name); }
    public String get(String name, String d) { return map.getOrDefault(name, d); }
    public String getTrimmed(String name) { return get(name) == null ? null : get(name).trim(); }
    public String getTrimmed(String name, String d) { return get(name) == null ? d : get(name).trim(); }
    public void set(String name, String value) { map.put(name, Objects.requireNonNull(value)); }
    public void setIfUnset(String name, String value) { map.putIfAbsent(name, value); }
    public void unset(String name) { map.remove(name); }
    public int getInt(String name, int d) { return get(name) == null ? d : Integer.parseInt(get(name).trim()); }
    public void setInt(String name, int v) { set(name, String.valueOf(v)); }
    public long getLong(String name, long d) { return get(name) == null ? d : Long.parseLong(get(name).trim()); }
    public void setLong(String name, long v) { set(name, String.valueOf(v)); }
    public float getFloat(String name, float d) { return get(name) == null ? d : Float.parseFloat(get(name).trim()); }
    public double getDouble(String name, double d) { return get(name) == null ? d : Double.parseDouble(get(name).trim()); }
    public boolean getBoolean(String name, boolean d) { return get(name) == null ? d : "true".equals(get(name).trim()) || !"false".equals(get(name).trim()) && d; }
    public void setBoolean(String name, boolean v) { set(name, String.valueOf(v)); }
    public String[] getStrings(String name, String... d) { return get(name) == null ? d : get(name).split(","); }
    public void setStrings(String name, String... v) { set(name, String.join(",", v)); }
    @Override public Iterator<Map.Entry<String, String>> iterator() { return new TreeMap<>(map).entrySet().iterator(); }
}

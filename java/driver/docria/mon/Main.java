package docria.mon;

import java.io.*;
import java.util.*;

/** Reads commands from standard input, runs them on the code of the repository, writes what was observed. */
public final class Main {
    public static void main(String[] args) throws Exception {
        DataInputStream in = new DataInputStream(new BufferedInputStream(System.in));
        DataOutputStream out = new DataOutputStream(new BufferedOutputStream(System.out));
        System.setOut(System.err);
        while (true) {
            int n;
            try {
                n = in.readInt();
            } catch (EOFException e) {
                return;
            }
            byte[] data = new byte[n];
            in.readFully(data);
            Object answer;
            try {
                List<Object> cmd = (List<Object>) Wire.read(data);
                answer = Arrays.asList(true, Commands.run(cmd));
            } catch (Throwable t) {
                answer = failure(t);
            }
            byte[] back = Wire.write(answer);
            out.writeInt(back.length);
            out.write(back);
            out.flush();
        }
    }

    static List<Object> failure(Throwable t) {
        StringBuilder sb = new StringBuilder();
        for (Throwable x = t; x != null && sb.length() < 2000; x = x.getCause()) {
            sb.append(x);
            StackTraceElement[] st = x.getStackTrace();
            for (int k = 0; k < Math.min(8, st.length); k++) sb.append("\n  ").append(st[k]);
            sb.append('\n');
        }
        return Arrays.asList(false, t.getClass().getName(), sb.toString());
    }
}

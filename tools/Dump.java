import java.io.*; import java.util.*; import java.util.regex.*; import java.text.Normalizer;
public class Dump {
  static String hex(String s){ StringBuilder b=new StringBuilder(); int[] a=s.codePoints().toArray(); for(int i=0;i<a.length;i++){ if(i>0)b.append(' '); b.append(Integer.toHexString(a[i])); } return b.toString(); }
  public static void main(String[] x) throws Exception {
    PrintWriter w=new PrintWriter(new BufferedWriter(new FileWriter(x[0])));
    String[] props={"Alphabetic","Ideographic","Letter","Lowercase","Uppercase","Titlecase","Punctuation","Control","White_Space","Digit","Hex_Digit","Join_Control","Noncharacter_Code_Point","Assigned"};
    Pattern[] ps=new Pattern[props.length]; for(int i=0;i<ps.length;i++) ps[i]=Pattern.compile("\\p{Is"+props[i]+"}");
    for(int c=0;c<0x110000;c++){
      String s=new String(Character.toChars(c));
      boolean sur=c>=0xd800&&c<0xe000;
      StringBuilder b=new StringBuilder();
      b.append(Integer.toHexString(c)).append(';').append(Character.getType(c)).append(';').append(Character.UnicodeScript.of(c)).append(';').append(Character.UnicodeBlock.of(c)).append(';').append(Character.getDirectionality(c)).append(';').append(Character.isMirrored(c)).append(';').append(Character.getNumericValue(c)).append(';');
      b.append(Integer.toHexString(Character.toLowerCase(c))).append(';').append(Integer.toHexString(Character.toUpperCase(c))).append(';').append(Integer.toHexString(Character.toTitleCase(c))).append(';');
      b.append(sur?"":hex(s.toLowerCase(Locale.ROOT))).append(';').append(sur?"":hex(s.toUpperCase(Locale.ROOT))).append(';');
      b.append(sur?"":hex(Normalizer.normalize(s,Normalizer.Form.NFD))).append(';').append(sur?"":hex(Normalizer.normalize(s,Normalizer.Form.NFKD))).append(';');
      for(Pattern p:ps) b.append(p.matcher(s).matches()?'1':'0');
      b.append(';').append(Character.isJavaIdentifierStart(c)?1:0).append(Character.isJavaIdentifierPart(c)?1:0).append(Character.isUnicodeIdentifierStart(c)?1:0).append(Character.isUnicodeIdentifierPart(c)?1:0).append(Character.isIdentifierIgnorable(c)?1:0).append(Character.isWhitespace(c)?1:0).append(Character.isSpaceChar(c)?1:0).append(Character.isLetter(c)?1:0).append(Character.isISOControl(c)?1:0);
      b.append(';').append(Character.getName(c));
      w.println(b);
    }
    w.close();
  }
}

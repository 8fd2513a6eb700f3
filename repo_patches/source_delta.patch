From 1075d5a40e150fcad37c3ce720fed76636a7bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 001/100] fix: match pattern facets against the whole value

With re.match(pattern + '$') an alternation such as 'a|b' accepted 'ac' and
any pattern accepted a trailing newline.
---
 soapfish/xsd.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 8078115..305833e 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -152,8 +152,7 @@ class String(SimpleType):
         value = self._clean_whitespace(value)
 
         if self.pattern:
-            pattern = self.pattern + '$'
-            if re.match(pattern, value) is None:
+            if re.fullmatch(self.pattern, value) is None:
                 raise ValueError(f"Value '{value}' doesn't match pattern '{self.pattern}'")
 
         if self.enumeration:
@@ -380,8 +379,7 @@ class Decimal(SimpleType):
             raise ValueError(f'Value {value} smaller than minInclusive {self.minInclusive}')
 
         if self.pattern is not None:
-            pattern = self.pattern + '$'
-            if re.match(pattern, str(value)) is None:
+            if re.fullmatch(self.pattern, str(value)) is None:
                 raise ValueError(f"Value {value} doesn't match pattern {self.pattern}.")
 
         if self.totalDigits is not None:
-- 
2.43.0


From 55a619d66427f34042f32cc4699fda17a6e29e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 002/100] fix: enforce length facets of zero

---
 soapfish/xsd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 305833e..05fa556 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -159,15 +159,15 @@ class String(SimpleType):
             if not (value in self.enumeration):
                 raise ValueError(f"Value '{value}' not in list {self.enumeration}.")
 
-        if self.length:
+        if self.length is not None:
             if len(value) != self.length:
                 raise ValueError(f"Value '{value}' length {self.length} expected.")
 
-        if self.minLength:
+        if self.minLength is not None:
             if len(value) < self.minLength:
                 raise ValueError(f"Value '{value}' minLength {self.minLength} expected.")
 
-        if self.maxLength:
+        if self.maxLength is not None:
             if len(value) > self.maxLength:
                 raise ValueError(f"Value '{value}' maxLength {self.maxLength} expected.")
 
-- 
2.43.0


From 49dbdbde0ba0ecdd2f877f84c3d600fb12161a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 003/100] fix: support all lexical forms of xsd:boolean

'1' and '0' were rejected when parsing, surrounding whitespace was not
collapsed, and the numbers 1 and 0 were accepted but could not be rendered.
---
 soapfish/xsd.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 05fa556..b923a75 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -195,8 +195,10 @@ class String(SimpleType):
 
 class Boolean(SimpleType):
     def accept(self, value):
-        if value in [True, False, None]:
-            return value
+        if value is None:
+            return None
+        elif value in [True, False]:
+            return bool(value)
         else:
             raise ValueError(f"Value '{value}' for class '{self.__class__.__name__}'.")
 
@@ -211,9 +213,11 @@ class Boolean(SimpleType):
             raise ValueError(f"Value '{value}' for class '{self.__class__.__name__}'.")
 
     def pythonvalue(self, value):
-        if value == 'false':
+        if isinstance(value, str):
+            value = value.strip()
+        if value in ('false', '0'):
             return False
-        elif value == 'true':
+        elif value in ('true', '1'):
             return True
         elif value == 'nil' or value is None:
             return None
-- 
2.43.0


From 312db626683cedd0fe6652d20da2543d1af60e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 004/100] fix: do not misread xsd:date with negative year or
 hour-only offset

'-0044-03-15' was silently read as year 44 A.D. (B.C. dates are not supported,
so it is a ValueError now), '2001-10-26+02' raised a TypeError.
---
 soapfish/xsd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index b923a75..838d50d 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -232,7 +232,7 @@ class Date(SimpleType):
     #   3.2.9.2 Constraining facets
 
     YEAR_MONTH_DAY_REGEX = re.compile(r'''
-        ^(\-)?
+        ^(?P<sign>\-)?
         (?P<year>\d{4,})\-(?P<month>\d{2})\-(?P<day>\d{2})
         (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2}):?(?P<tz_minute>[0-9]{2})?))?$''', re.VERBOSE)
 
@@ -262,7 +262,7 @@ class Date(SimpleType):
             raise ValueError(f'Expected a string, not {value!r}')
 
         match = self.YEAR_MONTH_DAY_REGEX.match(value)
-        if match is None:
+        if match is None or match.group('sign'):
             raise ValueError(f'Unable to parse date string {value!r}')
         year = int(match.group('year'))
         month = int(match.group('month'))
@@ -279,7 +279,7 @@ class Date(SimpleType):
 
         sign = 1 if match.group('tz_sign') == '+' else -1
         hours = int(match.group('tz_hour'))
-        minutes = int(match.group('tz_minute'))
+        minutes = int(match.group('tz_minute') or 0)
         return timezone(sign * timedelta(hours=hours, minutes=minutes), name='UTC' + offset)
 
 
-- 
2.43.0


From 627b98c598f3f85649edc4bfa5bb8fcdc0cfb483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 005/100] fix: render years below 1000 with four digits

strftime('%Y') does not pad, '999-01-01' is not a valid xsd:date.
---
 soapfish/xsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 838d50d..3c774e1 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -249,7 +249,7 @@ class Date(SimpleType):
         raise ValueError(f'Incorrect type value {value!r} for date field.')
 
     def xmlvalue(self, value):
-        timestring_without_tz = value.strftime('%Y-%m-%d')
+        timestring_without_tz = f'{value.year:04d}' + value.strftime('-%m-%d')
         tz = getattr(value, 'tzinfo', None)
         if not tz:
             return timestring_without_tz
@@ -298,7 +298,7 @@ class DateTime(SimpleType):
     def xmlvalue(self, value):
         if value is None:
             return 'nil'
-        timestring_without_tz = value.strftime('%Y-%m-%dT%H:%M:%S')
+        timestring_without_tz = f'{value.year:04d}' + value.strftime('-%m-%dT%H:%M:%S')
         tz = value.tzinfo
         if not tz:
             return timestring_without_tz
-- 
2.43.0


From a7faeefd49f96292d639065494213db3c0278ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 006/100] fix: ignore whitespace around dates and times when
 parsing

whiteSpace is fixed to 'collapse' for these types.
---
 soapfish/xsd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 3c774e1..012ecf6 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -261,7 +261,7 @@ class Date(SimpleType):
         if not isinstance(value, str):
             raise ValueError(f'Expected a string, not {value!r}')
 
-        match = self.YEAR_MONTH_DAY_REGEX.match(value)
+        match = self.YEAR_MONTH_DAY_REGEX.match(value.strip())
         if match is None or match.group('sign'):
             raise ValueError(f'Unable to parse date string {value!r}')
         year = int(match.group('year'))
@@ -305,7 +305,7 @@ class DateTime(SimpleType):
         return timestring_without_tz + timezone_offset_to_string(tz.utcoffset(value))
 
     def pythonvalue(self, value):
-        return None if value is None or value == 'nil' else iso8601.parse_date(value)
+        return None if value is None or value == 'nil' else iso8601.parse_date(value.strip())
 
 
 class Time(SimpleType):
@@ -336,7 +336,7 @@ class Time(SimpleType):
     def _parse(value):
         # Horrible hacky approach to implement this quickly:
         try:
-            dt = iso8601.parse_date('1900-01-01T' + value)
+            dt = iso8601.parse_date('1900-01-01T' + value.strip())
         except Exception as e:
             raise ValueError(str(e)) from e
         else:
-- 
2.43.0


From a716322318a74db9961c8264b7f97d132496edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 007/100] fix: comments and processing instructions must not
 change parsed values

A comment inside the text of an element truncated the value, a processing
instruction as a child of a complex type raised a TypeError.
---
 soapfish/xsd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 012ecf6..019294f 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -109,7 +109,9 @@ class SimpleType(Type):
         parent.text = self.xmlvalue(value)
 
     def parse_xmlelement(self, xmlelement):
-        return self.pythonvalue(xmlelement.text)
+        # Comments and processing instructions split the text of an element.
+        text = ''.join(xmlelement.xpath('text()')) or None
+        return self.pythonvalue(text)
 
     def xmlvalue(self, value):
         raise NotImplementedError
@@ -948,7 +950,8 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         def gettagns(tag):
             """Translate a tag string in a format {namespace} tag to a tuple (namespace, tag)."""
             return tag[1:].split('}', 1) if tag[0] == '{' else (None, tag)
-        if isinstance(xmlelement, etree._Comment):
+        if not isinstance(xmlelement.tag, str):
+            # Comment, processing instruction or entity reference.
             return False
         ns, tag = gettagns(xmlelement.tag)
         return tag == field._name or tag == field.tagname
-- 
2.43.0


From 4ffcc3eef274748c0c51cdedc7b635a8cdba8619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 008/100] fix: parse an empty string element as an empty string

<value></value> became None so that the element vanished when rendered again.
Empty parts of a SOAP fault are still reported as None.
---
 soapfish/soap11.py | 2 +-
 soapfish/xsd.py    | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 2357533..ea1fc8e 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -27,7 +27,7 @@ def get_error_response(code, message, actor=None, header=None):
 
 
 def parse_fault_message(fault):
-    return fault.faultcode, fault.faultstring, fault.faultactor
+    return fault.faultcode, fault.faultstring or None, fault.faultactor or None
 
 
 class Code(str, enum.Enum):
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 019294f..6293f0f 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -181,6 +181,10 @@ class String(SimpleType):
     def pythonvalue(self, xmlvalue):
         return xmlvalue
 
+    def parse_xmlelement(self, xmlelement):
+        value = super().parse_xmlelement(xmlelement)
+        return self.pythonvalue('') if value is None else value
+
     def _clean_whitespace(self, value):
         if self.whiteSpace == 'preserve':
             # do nothing, just preserve the value
-- 
2.43.0


From b87c18a05c077335c74d383ff02d441f175d9c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 009/100] fix: interpret xsi:nil as xsd:boolean

List items with xsi:nil='false' were dropped to NIL and xsi:nil='1' was
ignored for elements.
---
 soapfish/xsd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 6293f0f..094aa5f 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -541,6 +541,10 @@ def import_type(type_name):
     return getattr(module, name)
 
 
+def is_nil(xmlelement):
+    return xmlelement.get(f'{{{ns.xsi}}}nil', '').strip() in ('true', '1')
+
+
 class Element:
     """
     Basic building block, represents an XML element that can appear 0 or 1 times that should be rendered as subelement.
@@ -628,7 +632,7 @@ class Element:
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        value = NIL if xmlelement.get(f'{{{ns.xsi}}}nil') == 'true' else self._type.parse_xmlelement(xmlelement)
+        value = NIL if is_nil(xmlelement) else self._type.parse_xmlelement(xmlelement)
         setattr(instance, field_name, value)
 
     def __repr__(self):
@@ -825,7 +829,7 @@ class ListElement(Element):
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        value = NIL if xmlelement.get(f'{{{ns.xsi}}}nil') else self._type.parse_xmlelement(xmlelement)
+        value = NIL if is_nil(xmlelement) else self._type.parse_xmlelement(xmlelement)
         _list = getattr(instance, field_name)
         _list.append(value)
 
-- 
2.43.0


From 8198bf69dd51d35cfddb7c2825fdbe5ce9494d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 010/100] fix: do not share list fields of a group between
 instances

The default of a Ref was a shallow copy, so lists in a group were one object
for all instances of all classes using that group.
---
 soapfish/xsd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 094aa5f..258c69c 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -27,7 +27,6 @@ Design Decision Log.
 For information on XML schema validation, see https://lxml.de/validation.html#xmlschema
 """
 
-import copy
 import decimal
 import enum
 import functools
@@ -732,7 +731,7 @@ class Ref(Element):
 
     def empty_value(self):
         self._evaluate_type()
-        return copy.copy(self._type)
+        return type(self._type)()
 
     def render(self, parent, field_name, value, namespace=None, elementFormDefault=None):
         if value is None:
-- 
2.43.0


From 13870a35cb51674e7e4827d67e12a5578fbb5eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 011/100] fix: parse the alternatives of a choice from child
 elements

A complex type with INDICATOR = xsd.Choice renders the selected alternative
as child of the element but was parsed as completely empty.
---
 soapfish/xsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 258c69c..d94db01 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -974,7 +974,9 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         for attribute in instance._meta.attributes:
             attribute.parse(instance, attribute._name, xmlelement)
 
-        is_choice = (instance._meta.cls.INDICATOR == Choice)
+        # A choice is usually wrapped by its parent element but the element might also be the selected alternative.
+        is_choice = (instance._meta.cls.INDICATOR == Choice) \
+            and not any(cls._find_subelement(field, xmlelement) for field in instance._meta.fields)
         for field in instance._meta.fields:
             if is_choice:
                 if not cls._is_matching_element(field, xmlelement):
-- 
2.43.0


From 2b8a081f206c1f5ea6cc81f4276586b97d7d69ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 012/100] fix: raise the intended error when a required
 reference is None

Ref has no attribute '_required'.
---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index d94db01..a0ac919 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -735,7 +735,7 @@ class Ref(Element):
 
     def render(self, parent, field_name, value, namespace=None, elementFormDefault=None):
         if value is None:
-            if self._required:
+            if self._minOccurs:
                 raise ValueError('Value None is not acceptable for required field.')
             else:
                 return
-- 
2.43.0


From b77c337f3d19b810ccaeae41db2c8e8715b4a832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 013/100] fix: read and write numbers in their XML Schema
 lexical representation

Decimals were rendered with an exponent ('1E+5', '1e-07'), infinity and NaN as
'inf' and 'nan', booleans as 'True'. decimal.Decimal values were turned into
strings, which is a TypeError as soon as the type has a bound. Python-only
notations such as '1_000' were accepted when parsing.
---
 soapfish/xsd.py | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index a0ac919..9ae5b79 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -349,6 +349,7 @@ class Time(SimpleType):
 
 
 class Decimal(SimpleType):
+    LEXICAL_REGEX = re.compile(r'[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?')
 
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None,
                  maxInclusive=None, minExclusive=None, minInclusive=None,
@@ -404,20 +405,29 @@ class Decimal(SimpleType):
     def accept(self, value):
         if value is None:
             return None
-        elif isinstance(value, decimal.Decimal):
-            value = str(value)
-        elif isinstance(value, (float, int)):
+        elif isinstance(value, bool):
+            value = int(value)
+        elif isinstance(value, (decimal.Decimal, float, int)):
             pass  # value is just value
         elif isinstance(value, str):
+            if not self.LEXICAL_REGEX.fullmatch(value.strip()):
+                raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
             value = float(value)
         else:
             raise ValueError(f"Incorrect value '{value}' for Decimal field.")
 
+        self._check_finite(value)
         self._check_restrictions(value)
         return value
 
+    def _check_finite(self, value):
+        # There is no representation of infinity and NaN in xsd:decimal.
+        if not decimal.Decimal(value).is_finite():
+            raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
+
     def xmlvalue(self, value):
-        return str(value)
+        # There is no exponent in the lexical representation of xsd:decimal.
+        return format(decimal.Decimal(str(value)), 'f')
 
     def pythonvalue(self, xmlvalue):
         if xmlvalue == 'nil':
@@ -426,7 +436,23 @@ class Decimal(SimpleType):
             return self.accept(xmlvalue)
 
 
-class Double(Decimal):
+class FloatingPoint:
+    """Lexical representation shared by xsd:double and xsd:float."""
+
+    LEXICAL_REGEX = re.compile(Decimal.LEXICAL_REGEX.pattern + r'|[-+]?INF|NaN')
+
+    def _check_finite(self, value):
+        pass
+
+    def xmlvalue(self, value):
+        if value != value:
+            return 'NaN'
+        elif value in (float('inf'), float('-inf')):
+            return 'INF' if value > 0 else '-INF'
+        return str(value)
+
+
+class Double(FloatingPoint, Decimal):
     def __init__(self, enumeration=None, maxExclusive=None, maxInclusive=None, minExclusive=None, minInclusive=None,
                  pattern=None):
         super().__init__(
@@ -435,7 +461,7 @@ class Double(Decimal):
         )
 
 
-class Float(Decimal):
+class Float(FloatingPoint, Decimal):
     def __init__(self, enumeration=None, maxExclusive=None, maxInclusive=None, minExclusive=None, minInclusive=None,
                  pattern=None):
         super().__init__(
@@ -458,8 +484,10 @@ class Integer(Decimal):
         if value is None:
             return None
         elif isinstance(value, int):
-            pass  # value is just value continue.
+            value = int(value)
         elif isinstance(value, str):
+            if not re.fullmatch(r'[-+]?[0-9]+', value.strip()):
+                raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
             value = int(value)
         else:
             raise ValueError(f"Incorrect value '{value}' for Decimal field.")
-- 
2.43.0


From 3af14e5b33b5a7d78991b7b26cdcf323a0bf3d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 014/100] fix: check digits and pattern of numbers against the
 text that is written

The sign counted as digit, and because text is parsed as float '1234' was
checked as '1234.0' (violates totalDigits=4, fractionDigits=0 or a pattern).
---
 soapfish/xsd.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 9ae5b79..9e6a0c6 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -368,7 +368,7 @@ class Decimal(SimpleType):
             raise ValueError(f'{value} not in enumeration {self.enumeration}')
 
         if self.fractionDigits is not None:
-            strvalue = str(value)
+            strvalue = self.xmlvalue(value)
             if self.fractionDigits == 0:
                 if '.' in strvalue:
                     raise ValueError(f'Wrong fraction digits for value {strvalue} allowed {self.fractionDigits}')
@@ -389,12 +389,13 @@ class Decimal(SimpleType):
             raise ValueError(f'Value {value} smaller than minInclusive {self.minInclusive}')
 
         if self.pattern is not None:
-            if re.fullmatch(self.pattern, str(value)) is None:
+            if re.fullmatch(self.pattern, self.xmlvalue(value)) is None:
                 raise ValueError(f"Value {value} doesn't match pattern {self.pattern}.")
 
         if self.totalDigits is not None:
-            strvalue = str(value)
-            length = len(strvalue)
+            strvalue = self.xmlvalue(value)
+            # Neither sign nor leading zeros are significant.
+            length = len(strvalue.lstrip('-').lstrip('0'))
             if '.' in strvalue:
                 length -= 1
             if length > self.totalDigits:
@@ -427,7 +428,8 @@ class Decimal(SimpleType):
 
     def xmlvalue(self, value):
         # There is no exponent in the lexical representation of xsd:decimal.
-        return format(decimal.Decimal(str(value)), 'f')
+        text = format(decimal.Decimal(str(value)), 'f')
+        return text[:-2] if isinstance(value, float) and text.endswith('.0') else text
 
     def pythonvalue(self, xmlvalue):
         if xmlvalue == 'nil':
-- 
2.43.0


From 88cd80236fc86f0be5e418756091ae95f4944a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 015/100] fix: do not discard facets of integer types

The range of the built-in type replaced minInclusive, maxInclusive and pattern
given by the user, e.g. xsd.Int(minInclusive=5) accepted 1.
---
 soapfish/xsd.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 9e6a0c6..3b6965b 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -479,7 +479,15 @@ class Integer(Decimal):
                  minInclusive=None, pattern=None, totalDigits=None):
         facets = {k: v for k, v in locals().items() if k not in {'self', '__class__'}}
         for c in itertools.dropwhile(lambda x: x != Integer, reversed(self.__class__.__mro__)):
-            facets.update(c.overrides)
+            for name, value in c.overrides.items():
+                # Facets of the user can narrow the range of a built-in type but not extend it.
+                facet = facets[name]
+                if facet is None or name == 'fractionDigits':
+                    facets[name] = value
+                elif name == 'minInclusive':
+                    facets[name] = max(facet, value)
+                elif name == 'maxInclusive':
+                    facets[name] = min(facet, value)
         super().__init__(**facets)
 
     def accept(self, value):
-- 
2.43.0


From 8e406239e5c6e3d3131135e9f143c996b0b93860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 016/100] fix: honour facets declared as class attributes of
 numeric subtypes

Like for strings, 'class Age(xsd.Int): maxInclusive = 120' is what the code
generator writes for a named restriction, but the constructor replaced all
declared facets by None.
---
 soapfish/xsd.py | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 3b6965b..3646603 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -351,17 +351,36 @@ class Time(SimpleType):
 class Decimal(SimpleType):
     LEXICAL_REGEX = re.compile(r'[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?')
 
+    # To be defined in children.
+    enumeration = None
+    fractionDigits = None
+    maxExclusive = None
+    maxInclusive = None
+    minExclusive = None
+    minInclusive = None
+    pattern = None
+    totalDigits = None
+
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None,
                  maxInclusive=None, minExclusive=None, minInclusive=None,
                  pattern=None, totalDigits=None):
-        self.enumeration = enumeration
-        self.fractionDigits = fractionDigits
-        self.maxExclusive = maxExclusive
-        self.maxInclusive = maxInclusive
-        self.minExclusive = minExclusive
-        self.minInclusive = minInclusive
-        self.pattern = pattern
-        self.totalDigits = totalDigits
+        self.enumeration = self._facet('enumeration', enumeration)
+        self.fractionDigits = self._facet('fractionDigits', fractionDigits)
+        self.maxExclusive = self._facet('maxExclusive', maxExclusive)
+        self.maxInclusive = self._facet('maxInclusive', maxInclusive)
+        self.minExclusive = self._facet('minExclusive', minExclusive)
+        self.minInclusive = self._facet('minInclusive', minInclusive)
+        self.pattern = self._facet('pattern', pattern)
+        self.totalDigits = self._facet('totalDigits', totalDigits)
+
+    def _facet(self, name, value):
+        if value is None:
+            value = getattr(self, name)
+        if name == 'pattern' or value is None:
+            return value
+        # Generated code declares numbers as strings.
+        number = lambda x: x if not isinstance(x, str) else int(x) if re.fullmatch('[-+]?[0-9]+', x) else float(x)
+        return [number(x) for x in value] if name == 'enumeration' else number(value)
 
     def _check_restrictions(self, value):
         if self.enumeration is not None and value not in self.enumeration:
@@ -481,7 +500,7 @@ class Integer(Decimal):
         for c in itertools.dropwhile(lambda x: x != Integer, reversed(self.__class__.__mro__)):
             for name, value in c.overrides.items():
                 # Facets of the user can narrow the range of a built-in type but not extend it.
-                facet = facets[name]
+                facet = facets[name] = self._facet(name, facets[name])
                 if facet is None or name == 'fractionDigits':
                     facets[name] = value
                 elif name == 'minInclusive':
-- 
2.43.0


From c8ed4799d0c503311e26431459062a8b95874286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 017/100] fix: parse attributes by their tag name and use their
 default as is

Attributes with a tagname were rendered but never found when parsing, and the
default of a missing attribute was parsed like text, so that any default that
is not a string (e.g. True or a date) raised an error.
---
 soapfish/py2xsd.py | 2 +-
 soapfish/xsd.py    | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 320c689..e452f62 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -36,7 +36,7 @@ def get_xsd_type(_type):
 
 def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
-    xsdattr.name = attribute._name
+    xsdattr.name = attribute.tagname or attribute._name
     xsdattr.use = attribute.use
     xsdattr.type = get_xsd_type(attribute._type)
     return xsdattr
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 3646603..9f0fc1f 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -753,10 +753,8 @@ class Attribute(Element):
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        xmlvalue = xmlelement.get(field_name)
-        if xmlvalue is None:
-            xmlvalue = self.default
-        value = self._type.pythonvalue(xmlvalue)
+        xmlvalue = xmlelement.get(self.tagname or field_name)
+        value = self.default if xmlvalue is None else self._type.pythonvalue(xmlvalue)
         setattr(instance, field_name, value)
 
 
-- 
2.43.0


From 80bbd66083b30c71a543e882b229a00aefc6fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 018/100] fix: generate XSDs for complex types with attributes

'ref' was required although 'name' and 'ref' exclude each other, so rendering
the schema raised a ValueError for every model with an attribute.
---
 soapfish/xsdspec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsdspec.py b/soapfish/xsdspec.py
index da64a39..d1a72ea 100644
--- a/soapfish/xsdspec.py
+++ b/soapfish/xsdspec.py
@@ -79,10 +79,10 @@ class Sequence(xsd.ComplexType):
 
 class Attribute(xsd.ComplexType):
     NAMESPACE = ns.xsd
-    name = xsd.Attribute(xsd.String)
-    ref = xsd.Attribute(xsd.String)
-    type = xsd.Attribute(xsd.String)
-    use = xsd.Attribute(xsd.String)
+    name = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    ref = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    type = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    use = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
     simpleType = xsd.Element(SimpleType, minOccurs=0)
 
 
-- 
2.43.0


From 828ca02d00311b964e81facd15bcae705598126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 019/100] fix: emit all built-in types as XML Schema types

NMTOKEN(S) and the sign-restricted integers were referenced as types of the
user's own schema, which then did not compile.
---
 soapfish/py2xsd.py | 5 +++--
 soapfish/utils.py  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index e452f62..98c8d36 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -13,10 +13,11 @@ from .utils import uncapitalize, walk_schema_tree
 
 NUMERIC_TYPES = [
     xsd.Decimal, xsd.Integer, xsd.Int, xsd.Long, xsd.Short, xsd.UnsignedByte, xsd.UnsignedInt, xsd.UnsignedLong,
-    xsd.UnsignedShort, xsd.Double, xsd.Float, xsd.Byte,
+    xsd.UnsignedShort, xsd.Double, xsd.Float, xsd.Byte, xsd.NonNegativeInteger, xsd.NonPositiveInteger,
+    xsd.NegativeInteger, xsd.PositiveInteger,
 ]
 
-STRING_TYPES = [xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType, xsd.Duration]
+STRING_TYPES = [xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType, xsd.Duration, xsd.NMTOKEN, xsd.NMTOKENS]
 
 ALL_TYPES = NUMERIC_TYPES + STRING_TYPES
 
diff --git a/soapfish/utils.py b/soapfish/utils.py
index fe387ce..47e9477 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -42,7 +42,7 @@ def remove_namespace(qname):
 
 
 def uncapitalize(value):
-    return value if value == 'QName' else value[0].lower() + value[1:]
+    return value if value in ('QName', 'NMTOKEN', 'NMTOKENS') else value[0].lower() + value[1:]
 
 
 def schema_name(obj, location=None):
-- 
2.43.0


From 9ca4d0a26a6be1b5fc7e95ad4266e80842290b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 020/100] fix: strip leading and trailing whitespace when
 collapsing

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 9f0fc1f..a757809 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -193,7 +193,7 @@ class String(SimpleType):
             value = re.sub(r'[\t\r\n\s]', ' ', value)
         elif self.whiteSpace == 'collapse':
             # clean line feeds, tabs, spaces, and carriage returns with one whitespace
-            value = re.sub(r'[\t\r\n\s]+', ' ', value)
+            value = re.sub(r'[\t\r\n\s]+', ' ', value).strip(' ')
 
         return value
 
-- 
2.43.0


From 6dc2175c11f88d61248b1dd92c5809fa0b8b292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 021/100] fix: write all facets of simple types to generated
 XSDs

Facets of zero were dropped, as were length, minLength, maxLength and
whiteSpace, enumerations of numbers, and all facets but enumeration, pattern
and fractionDigits of named types. Restrictions also repeated the bounds of
built-in integer types, which is an error in combination with minExclusive or
maxExclusive.
---
 soapfish/py2xsd.py | 62 +++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 98c8d36..4675327 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -35,6 +35,30 @@ def get_xsd_type(_type):
         return 'sns:' + uncapitalize(_type.__class__.__name__)
 
 
+def add_facets(restriction, _type, base):
+    """Add the facets of a simple type which are not already part of its base type."""
+    def facet(name):
+        value = getattr(_type, name, None)
+        return None if value == getattr(base, name, None) else value
+
+    for value in facet('enumeration') or ():
+        restriction.enumerations.append(xsdspec.Enumeration.create(value if isinstance(value, str) else _type.xmlvalue(value)))
+
+    if facet('pattern'):
+        restriction.pattern = xsdspec.Pattern(value=str(_type.pattern))
+
+    for name in ('minInclusive', 'minExclusive', 'maxExclusive', 'maxInclusive'):
+        value = facet(name)
+        if value is not None:
+            value = value if isinstance(value, str) else _type.xmlvalue(value)
+            setattr(restriction, name, xsdspec.RestrictionValue(value=value))
+
+    for name in ('fractionDigits', 'totalDigits', 'length', 'minLength', 'maxLength', 'whiteSpace'):
+        value = facet(name)
+        if value is not None:
+            setattr(restriction, name, xsdspec.RestrictionValue(value=str(value)))
+
+
 def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
     xsdattr.name = attribute.tagname or attribute._name
@@ -52,7 +76,6 @@ def create_xsd_element(element):
         xsd_element.maxOccurs = element._maxOccurs
 
     # SimpleType defined in place.
-    parent_type = element._type.__class__.__bases__[0]
     _type = element._type
 
     if not inspect.isclass(element._passed_type):
@@ -60,31 +83,7 @@ def create_xsd_element(element):
         xsd_element.simpleType.restriction = xsdspec.Restriction()
         xsd_element.simpleType.restriction.base = get_xsd_type(element._type)
 
-        if hasattr(element._type, 'enumeration') and element._type.enumeration and parent_type == xsd.SimpleType:
-            for value in element._type.enumeration:
-                enum = xsdspec.Enumeration.create(value)
-                xsd_element.simpleType.restriction.enumerations.append(enum)
-
-        if hasattr(_type, 'fractionDigits') and _type.fractionDigits:
-            xsd_element.simpleType.restriction.fractionDigits = xsdspec.RestrictionValue(value=str(_type.fractionDigits))
-
-        if hasattr(_type, 'pattern') and _type.pattern:
-            xsd_element.simpleType.restriction.pattern = xsdspec.Pattern(value=str(_type.pattern))
-
-        if hasattr(_type, 'minInclusive') and _type.minInclusive:
-            xsd_element.simpleType.restriction.minInclusive = xsdspec.RestrictionValue(value=str(_type.minInclusive))
-
-        if hasattr(_type, 'minExclusive') and _type.minExclusive:
-            xsd_element.simpleType.restriction.minExclusive = xsdspec.RestrictionValue(value=str(_type.minExclusive))
-
-        if hasattr(_type, 'maxExclusive') and _type.maxExclusive:
-            xsd_element.simpleType.restriction.maxExclusive = xsdspec.RestrictionValue(value=str(_type.maxExclusive))
-
-        if hasattr(_type, 'maxInclusive') and _type.maxInclusive:
-            xsd_element.simpleType.restriction.maxInclusive = xsdspec.RestrictionValue(value=str(_type.maxInclusive))
-
-        if hasattr(_type, 'totalDigits') and _type.totalDigits:
-            xsd_element.simpleType.restriction.totalDigits = xsdspec.RestrictionValue(value=str(_type.totalDigits))
+        add_facets(xsd_element.simpleType.restriction, _type, _type.__class__())
     else:
         xsd_element.type = get_xsd_type(element._type)
     return xsd_element
@@ -126,14 +125,9 @@ def xsd_simpleType(st):
     xsd_simpleType = xsdspec.SimpleType()
     xsd_simpleType.name = uncapitalize(st.__name__)
     xsd_restriction = xsdspec.Restriction()
-    xsd_restriction.base = get_xsd_type(st.__bases__[0]())
-    if hasattr(st, 'enumeration') and st.enumeration:
-        for enum in st.enumeration:
-            xsd_restriction.enumerations.append(xsdspec.Enumeration.create(enum))
-    if hasattr(st, 'fractionDigits') and st.fractionDigits:
-        xsd_restriction.fractionDigits = xsdspec.RestrictionValue(value=st.fractionDigits)
-    elif hasattr(st, 'pattern') and st.pattern:
-        xsd_restriction.pattern = xsdspec.Pattern(value=st.pattern)
+    base = st.__bases__[0]()
+    xsd_restriction.base = get_xsd_type(base)
+    add_facets(xsd_restriction, st(), base)
     xsd_simpleType.restriction = xsd_restriction
     return xsd_simpleType
 
-- 
2.43.0


From 0daf4cff0f6863688043218bde9114789ff948dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 022/100] fix: declare lists without maxOccurs as unbounded

The model accepts any number of items but the XSD (and thus the dispatcher)
rejected more than one because maxOccurs defaults to 1 in XML Schema.
---
 soapfish/py2xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 4675327..8c46e3d 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -73,7 +73,7 @@ def create_xsd_element(element):
     xsd_element.nillable = element.nillable
     xsd_element.minOccurs = element._minOccurs
     if hasattr(element, '_maxOccurs'):
-        xsd_element.maxOccurs = element._maxOccurs
+        xsd_element.maxOccurs = xsd.UNBOUNDED if element._maxOccurs is None else element._maxOccurs
 
     # SimpleType defined in place.
     _type = element._type
-- 
2.43.0


From 1b2e3b9b9fdc5f87894a204bd440c5fe222d8bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 023/100] fix: support services with more than one schema in
 the dispatcher

The XSDs of all schemas were concatenated to one (not well-formed) document.
---
 soapfish/py2xsd.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 8c46e3d..de631a9 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -206,6 +206,28 @@ def generate_xsd(schema):
     return xmlelement
 
 
+def combine_schemas(schemas, lookup):
+    """Return a XSD which imports all schemas, their location (real or made up) is added to the lookup."""
+    def reference(parent, tag, location, **attrs):
+        etree.SubElement(parent, '{%s}%s' % (ns.xsd, tag), schemaLocation=location, **attrs)
+
+    namespaces = {}
+    for n, schema in enumerate(schemas):
+        location = schema.location or f'soapfish-schema-{n}.xsd'
+        lookup[location] = schema
+        namespaces.setdefault(schema.targetNamespace, []).append(location)
+
+    combined = etree.Element('{%s}schema' % ns.xsd)
+    for n, (namespace, locations) in enumerate(namespaces.items()):
+        # There can be only one import per namespace.
+        location = f'soapfish-namespace-{n}.xsd'
+        lookup[location] = etree.Element('{%s}schema' % ns.xsd, targetNamespace=namespace)
+        for x in locations:
+            reference(lookup[location], 'include', x)
+        reference(combined, 'import', location, namespace=namespace)
+    return combined
+
+
 def schema_validator(schemas):
     """
     Return a callable for the specified soapfish schemas which can be used to validate (etree) xml documents.
@@ -220,7 +242,8 @@ def schema_validator(schemas):
 
         def resolve(self, url, id_, context):
             if url in self.lookup:
-                schema_string = etree.tostring(generate_xsd(self.lookup[url]))
+                item = self.lookup[url]
+                schema_string = etree.tostring(item if etree.iselement(item) else generate_xsd(item))
                 return self.resolve_string(schema_string, context)
             # prevent unwanted network access
             raise ValueError(f'Cannot resolve {url!r} - not a known soapfish schema')
@@ -242,7 +265,10 @@ def schema_validator(schemas):
     # Also having shared resolvers is not a good idea because a user might want
     # to have different validator instances at the same time (possibly with
     # conflicting namespace urls).
-    schema_xml = b''.join(etree.tostring(generate_xsd(s)) for s in schemas)
+    if len(schemas) == 1:
+        schema_xml = etree.tostring(generate_xsd(schemas[0]))
+    else:
+        schema_xml = etree.tostring(combine_schemas(schemas, resolver.lookup))
     schema_element = etree.fromstring(schema_xml, parser)
     xml_schema = etree.XMLSchema(schema_element)
     return xml_schema.assertValid
-- 
2.43.0


From e744cd61b31703287d332ebe7ab18592c4b71973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 024/100] fix: rewrite schema locations to working URLs

Imports without a location raised a KeyError, locations with characters such
as '&', '+' or '#' were not found when following the link.
---
 soapfish/soap_dispatch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index b31f38d..60a6efd 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -2,7 +2,7 @@ import functools
 import logging
 import re
 import string
-from urllib.parse import parse_qs
+from urllib.parse import parse_qs, quote
 
 from lxml import etree
 
@@ -234,7 +234,8 @@ class SOAPDispatcher:
 
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
-            e.attrib['schemaLocation'] = '?xsd=%s' % e.attrib['schemaLocation']
+            if 'schemaLocation' in e.attrib:
+                e.attrib['schemaLocation'] = '?xsd=%s' % quote(e.attrib['schemaLocation'])
 
     def _call_hook(self, name, **kw):
         hook = self.hooks.get(name)
-- 
2.43.0


From 5970a9c13de81a9bcfaad67498b940972271d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 025/100] fix: refer to the right namespace in WSDLs of
 services with several schemas

All types and message parts were declared to be in the namespace of the first
schema.
---
 soapfish/py2wsdl.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 1fafa64..9264d19 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -8,7 +8,7 @@ from importlib.machinery import SourceFileLoader
 from lxml import etree
 
 from . import namespaces as ns, xsd
-from .py2xsd import generate_xsdspec
+from .py2xsd import generate_xsd, generate_xsdspec
 from .soap import SOAP_HTTP_Transport
 from .utils import uncapitalize
 from .wsdl import get_wsdl_classes
@@ -70,7 +70,7 @@ def build_messages(wsdl, definitions, service):
         inputMessage = wsdl.Message(name=method.operationName + 'Input')
         part = wsdl.Part(name='body')
         if isinstance(method.input, str):
-            part.element = 'sns:' + method.input
+            part.element = get_prefix(service, method.input) + ':' + method.input
         else:
             part.type = 'sns:' + uncapitalize(method.input.__name__)
         inputMessage.parts = [part]
@@ -79,13 +79,22 @@ def build_messages(wsdl, definitions, service):
         outputMessage = wsdl.Message(name=method.operationName + 'Output')
         part = wsdl.Part(name='body')
         if isinstance(method.output, str):
-            part.element = 'sns:' + method.output
+            part.element = get_prefix(service, method.output) + ':' + method.output
         else:
             part.type = 'sns:' + uncapitalize(method.output.__name__)
         outputMessage.parts = [part]
         definitions.messages.append(outputMessage)
 
 
+def get_prefix(service, name):
+    """Return the prefix for the namespace of an element, see nsmap in generate_wsdl()."""
+    for n, schema in enumerate(service.schemas):
+        element = schema.get_element_by_name(name)
+        if element is not None and element.namespace == schema.targetNamespace:
+            return f'sns{n or ""}'
+    return 'sns'
+
+
 def build_types(wsdl, definitions, service):
     schemas = [generate_xsdspec(schema) for schema in service.schemas]
     definitions.types = wsdl.Types(schemas=schemas)
@@ -103,8 +112,7 @@ def generate_wsdl(service):
     xmlelement = etree.Element(
         '{%s}definitions' % ns.wsdl,
         nsmap={
-            # FIXME: Look up properly if multiple schemas...
-            'sns': service.schemas[0].targetNamespace,
+            **{f'sns{n or ""}': schema.targetNamespace for n, schema in enumerate(service.schemas)},
             'soap': service.version.BINDING_NAMESPACE,
             'tns': service.targetNamespace,
             'wsdl': ns.wsdl,
@@ -117,6 +125,11 @@ def generate_wsdl(service):
                        namespace=ns.wsdl,
                        elementFormDefault=xsd.ElementFormDefault.QUALIFIED)
 
+    # Schemas refer to their own types with 'sns' which is only correct for the first one.
+    schemas = xmlelement.findall('{%s}types/{%s}schema' % (ns.wsdl, ns.xsd))
+    for schema, element in list(zip(service.schemas, schemas))[1:]:
+        element.getparent().replace(element, generate_xsd(schema))
+
     return xmlelement
 
 
-- 
2.43.0


From 867c0edf5b288990934d4ee159a7719eb82736fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 026/100] fix: fill in scheme and host without damaging the
 WSDL

Special characters in the Host header were inserted unescaped, and '$$' (e.g.
in a pattern) became '$'.
---
 soapfish/soap_dispatch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 60a6efd..9824279 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -1,8 +1,8 @@
 import functools
 import logging
 import re
-import string
 from urllib.parse import parse_qs, quote
+from xml.sax.saxutils import escape
 
 from lxml import etree
 
@@ -214,7 +214,10 @@ class SOAPDispatcher:
         host = request.environ.get('HTTP_HOST')
         wsdl = self.wsdl
         if scheme and host:
-            wsdl = string.Template(wsdl.decode()).safe_substitute(scheme=scheme, host=host).encode()
+            context = {'scheme': scheme, 'host': host}
+            quoted = lambda match: escape(context[match.group(1) or match.group(2)], {'"': '&quot;'})
+            # Not a string.Template because that also replaces '$$' anywhere in the document.
+            wsdl = re.sub(r'\$(?:(scheme|host)\b|\{(scheme|host)\})', quoted, wsdl.decode()).encode()
         response = SOAPResponse('wsdl', http_content=wsdl, http_headers={'Content-Type': 'text/xml'})
         return self._call_hook('wsdl-response', dispatcher=self, request=request, response=response)
 
-- 
2.43.0


From 4de60b71dfce11b4ca75326faf9c922a5acb0ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 027/100] fix: use the status code given to SOAPResponse

'bad request' and 'not found' were sent with status 200.
---
 soapfish/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/core.py b/soapfish/core.py
index d15a3df..9e1e6be 100644
--- a/soapfish/core.py
+++ b/soapfish/core.py
@@ -18,7 +18,7 @@ class SOAPResponse:
     def __init__(self, soap_body, soap_header=None, http_status_code=200, http_content=None, http_headers=None):
         self.soap_header = soap_header
         self.soap_body = soap_body
-        self.http_status_code = 200
+        self.http_status_code = http_status_code
         self.http_headers = {} if http_headers is None else http_headers
         self.http_content = http_content
 
-- 
2.43.0


From 4d86352086e6521f3c39a8667b6e7fce47830229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 028/100] fix: call the xsd-response hook for XSD requests

The wsdl-response hook was called instead.
---
 soapfish/soap_dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 9824279..b3be652 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -233,7 +233,7 @@ class SOAPDispatcher:
         else:
             response = SOAPResponse('xsd', http_content=xsd, http_headers={'Content-Type': 'text/xml'})
 
-        return self._call_hook('wsdl-response', dispatcher=self, request=request, response=response)
+        return self._call_hook('xsd-response', dispatcher=self, request=request, response=response)
 
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
-- 
2.43.0


From 941ae877ad255afdfce68fdacfe0878047bf0cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 029/100] fix: refuse unknown hook names which start like a
 known one

---
 soapfish/soap_dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index b3be652..5973502 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -32,7 +32,7 @@ class SOAPDispatcher:
             hooks = {}
         else:
             for hook in hooks:
-                if not re.match(r'(soap|wsdl|xsd)-(request|response)', hook):
+                if not re.fullmatch(r'(soap|wsdl|xsd)-(request|response)', hook):
                     raise KeyError(f'Invalid dispatcher hook name: {hook}')
         self.hooks = hooks
 
-- 
2.43.0


From ebe42adbaaf5a9e064179dc2ef0f8867c6fdecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 030/100] fix: always return bytes from the WSGI application

The bodies of 'bad request' and 'not found' are strings, which is an error in
WSGI servers.
---
 soapfish/soap_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 5973502..4b38865 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -260,4 +260,5 @@ class WsgiSoapApplication:
         soap_request = SOAPRequest(req_env, content)
         response = self.dispatcher.dispatch(soap_request)
         start_response(response.http_status_text, list(response.http_headers.items()))
-        return [response.http_content]
+        content = response.http_content
+        return [content.encode() if isinstance(content, str) else content]
-- 
2.43.0


From b6c8931071308d1c999814003da313996fb37084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 031/100] fix: make Service(use_wsa=True) work

There are no classes WSAsaHeader and WSAHeader.
---
 soapfish/soap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index d5f6219..e8ca771 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -49,9 +49,9 @@ class Service:
         self.version = version
         self.use_wsa = use_wsa
         if use_wsa and input_header is None:
-            input_header = wsa.WSAsaHeader
+            input_header = wsa.Header
         if use_wsa and output_header is None:
-            output_header = wsa.WSAHeader
+            output_header = wsa.Header
         self.input_header = input_header
         self.output_header = output_header
 
-- 
2.43.0


From 93b0dc3b9e987e225cd6215442a39f25ea3b7bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 032/100] fix: answer unusual SOAP envelopes instead of raising
 exceptions

An empty or nil body or header and comments or processing instructions in
front of the message caused an IndexError, AttributeError or TypeError.
---
 soapfish/soap11.py        | 4 ++--
 soapfish/soap_dispatch.py | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index ea1fc8e..52234d2 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -57,10 +57,10 @@ class Body(xsd.ComplexType):
     Fault = xsd.Element(Fault, minOccurs=0)
 
     def parse_as(self, ContentType):
-        return ContentType.parse_xmlelement(self._xmlelement[0])
+        return ContentType.parse_xmlelement(self.content())
 
     def content(self):
-        return self._xmlelement[0]
+        return next(self._xmlelement.iterchildren('*'), None)
 
 
 class Envelope(xsd.ComplexType):
diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 4b38865..7dc3522 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -9,6 +9,7 @@ from lxml import etree
 from . import py2wsdl, py2xsd, wsa
 from .core import SOAPError, SOAPRequest, SOAPResponse
 from .utils import uncapitalize, walk_schema_tree
+from .xsd import NIL
 
 __all__ = ['SOAPDispatcher']
 
@@ -63,8 +64,10 @@ class SOAPDispatcher:
         try:
             # note : no validation is performed
             envelope = SOAP.Envelope.parsexml(xml)
-        except etree.XMLSyntaxError as e:
+        except (etree.XMLSyntaxError, ValueError) as e:
             raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
+        if envelope.Header is NIL:
+            envelope.Header = None
         # Actually this is more a stopgap measure than a real fix. The real
         # fix is to change SOAP.Envelope/ComplexType so it raises some kind of
         # validation error. A missing SOAP body is not allowed by the SOAP
@@ -73,6 +76,8 @@ class SOAPDispatcher:
         # SOAP 1.2: http://www.w3.org/2003/05/soap-envelope/
         if envelope.Body is None:
             raise SOAPError(SOAP.Code.CLIENT, 'Missing SOAP body')
+        if envelope.Body.content() is None:
+            raise SOAPError(SOAP.Code.CLIENT, 'Empty SOAP body')
         return envelope
 
     def _find_handler_for_request(self, request, body):
@@ -129,7 +134,7 @@ class SOAPDispatcher:
     def _validate_header(self, soap_header):
         if soap_header is None:
             return
-        for children in soap_header._xmlelement.getchildren():
+        for children in soap_header._xmlelement.iterchildren('*'):
             namespace = children.nsmap.get(children.prefix)
             if namespace == wsa.NAMESPACE:
                 wsa.XML_SCHEMA.assertValid(children)
-- 
2.43.0


From 24c2531191ca06920ba34131b329e3315e76bdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 033/100] fix: send a fault if a valid message can not be
 parsed

Not every value which is valid according to the XSD is supported, e.g. dates
outside of the range of datetime.date, and raised a ValueError.
---
 soapfish/soap_dispatch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 7dc3522..a18eabf 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -165,8 +165,11 @@ class SOAPDispatcher:
             raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
 
         request.method = self._find_handler_for_request(request, soap_body)
-        request.soap_header = self._parse_header(request.method, soap_header)
-        request.soap_body = self._parse_input(request.method, soap_body)
+        try:
+            request.soap_header = self._parse_header(request.method, soap_header)
+            request.soap_body = self._parse_input(request.method, soap_body)
+        except ValueError as e:
+            raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
 
     def dispatch(self, request):
         request_method = request.environ.get('REQUEST_METHOD', '')
-- 
2.43.0


From c5efa2c5ad9af87913ce2f486b5f44f362957e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 034/100] fix: allow middlewares to respond without calling the
 method

request.method is only set when the innermost middleware was called, and the
tag name for untyped output used an attribute that does not exist.
---
 soapfish/soap_dispatch.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index a18eabf..c79908c 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -208,10 +208,9 @@ class SOAPDispatcher:
             tagname = uncapitalize(response.soap_body.__class__.__name__)
             # self._validate_response(response.soap_body, tagname)
             # TODO: handle validation results
-            if isinstance(request.method.output, str):
+            # There is no method if a middleware responded on its own.
+            if request.method is not None and isinstance(request.method.output, str):
                 tagname = request.method.output
-            else:
-                tagname = uncapitalize(response.content.__class__.__name__)
             response.http_content = SOAP.Envelope.response(tagname, response.soap_body, header=response.soap_header)
 
         return self._call_hook('soap-response', dispatcher=self, request=request, response=response)
-- 
2.43.0


From 230fa1f6f0f306bb9aa8f2a05ebed0f91fc7c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 035/100] fix: send a fault for elements which are no operation

An element of the schema without substitutionGroup raised an AttributeError.
---
 soapfish/soap_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index c79908c..ce4fba9 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -103,7 +103,8 @@ class SOAPDispatcher:
             try:
                 # FIXME: Improve handling of namespaces to be less hacky...
                 e = next(e for s in self.service.schemas for n, e in s.elements.items() if n == root_tag)
-                return next(m for m in self.service.methods if m.input == e.substitutionGroup.split(':')[-1])
+                head = (e.substitutionGroup or '').split(':')[-1]
+                return next(m for m in self.service.methods if head and m.input == head)
             except StopIteration as e:
                 raise SOAPError(SOAP.Code.CLIENT, f'Missing SOAP action and invalid root tag: {root_tag}') from e
 
-- 
2.43.0


From 21a6c3cf453673600e86098cb01ce13b38aa0151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 036/100] fix: refuse messages which are not the input of the
 requested SOAP action

The handler was called with an object parsed from an unrelated element, i.e.
usually with all values missing.
---
 soapfish/soap_dispatch.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index ce4fba9..1a9fc08 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -90,9 +90,12 @@ class SOAPDispatcher:
         if action:
             logger.debug('Finding handler using SOAP action found in HTTP headers: %s', action)
             try:
-                return next(m for m in self.service.methods if m.soapAction == action)
+                method = next(m for m in self.service.methods if m.soapAction == action)
             except StopIteration as e:
                 raise SOAPError(SOAP.Code.CLIENT, f'Invalid SOAP action: {action}') from e
+            if isinstance(method.input, str) and method.input not in (root_tag, self._substitution_head(root_tag)):
+                raise SOAPError(SOAP.Code.CLIENT, f'Invalid root tag for SOAP action {action}: {root_tag}')
+            return method
 
         else:
             logger.debug('Finding handler using root tag of the SOAP body: %s', root_tag)
@@ -101,13 +104,16 @@ class SOAPDispatcher:
             except StopIteration:
                 pass  # fall through and check for substitution group element
             try:
-                # FIXME: Improve handling of namespaces to be less hacky...
-                e = next(e for s in self.service.schemas for n, e in s.elements.items() if n == root_tag)
-                head = (e.substitutionGroup or '').split(':')[-1]
+                head = self._substitution_head(root_tag)
                 return next(m for m in self.service.methods if head and m.input == head)
             except StopIteration as e:
                 raise SOAPError(SOAP.Code.CLIENT, f'Missing SOAP action and invalid root tag: {root_tag}') from e
 
+    def _substitution_head(self, root_tag):
+        # FIXME: Improve handling of namespaces to be less hacky...
+        element = self.service.find_element_by_name(root_tag)
+        return element.substitutionGroup.split(':')[-1] if element is not None and element.substitutionGroup else None
+
     def _parse_header(self, handler, soap_header):
         # TODO return soap fault if header is required but missing in the input
         if soap_header is None:
-- 
2.43.0


From 3758f5aaf52372805603602ab8246a9da27c9342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 037/100] fix: send faults whose message contains control
 characters

Any exception text can end up in a fault, but lxml refuses characters which
are not allowed in XML and the ValueError replaced the fault.
---
 soapfish/soap_dispatch.py | 5 +++--
 soapfish/utils.py         | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 1a9fc08..c29d644 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -8,7 +8,7 @@ from lxml import etree
 
 from . import py2wsdl, py2xsd, wsa
 from .core import SOAPError, SOAPRequest, SOAPResponse
-from .utils import uncapitalize, walk_schema_tree
+from .utils import replace_invalid_characters, uncapitalize, walk_schema_tree
 from .xsd import NIL
 
 __all__ = ['SOAPDispatcher']
@@ -209,7 +209,8 @@ class SOAPDispatcher:
 
         if isinstance(response.soap_body, SOAPError):
             error = response.soap_body
-            response.http_content = SOAP.get_error_response(error.code, error.message, header=response.soap_header)
+            message = replace_invalid_characters(error.message)
+            response.http_content = SOAP.get_error_response(error.code, message, header=response.soap_header)
             response.http_status_code = 500
         else:
             tagname = uncapitalize(response.soap_body.__class__.__name__)
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 47e9477..516b9fd 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -191,6 +191,13 @@ def walk_schema_tree(schemas, callback, seen=None):
     return seen
 
 
+def replace_invalid_characters(text):
+    """Replace characters which are not allowed in XML documents."""
+    if not isinstance(text, str):
+        return text
+    return re.sub('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]', '\ufffd', text)
+
+
 def timezone_offset_to_string(offset):
     """
     Return a XSD-compatible string representation of a time zone UTC offset (timedelta).
-- 
2.43.0


From 797b745cfcb116b2ca56edaa18b79edbe365b6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 038/100] fix: use the SOAPAction header in plain WSGI and
 Flask applications

The WSGI name of the header is HTTP_SOAPACTION.
---
 soapfish/soap11.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 52234d2..faf95d3 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -10,7 +10,9 @@ NAME = 'soap11'
 
 # --- Functions ---------------------------------------------------------------
 def determine_soap_action(request):
-    if request.environ.get('SOAPACTION'):
+    if request.environ.get('HTTP_SOAPACTION'):
+        return request.environ.get('HTTP_SOAPACTION').replace('"', '')
+    elif request.environ.get('SOAPACTION'):
         return request.environ.get('SOAPACTION').replace('"', '')
     elif request.environ.get('ACTION'):
         return request.environ.get('ACTION').replace('"', '')
-- 
2.43.0


From 45dfe66be3636700f17f51d29e3104f7643c0486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 039/100] fix: do not fail on requests without content type in
 SOAP 1.2

---
 soapfish/soap12.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap12.py b/soapfish/soap12.py
index e84dbd0..fe58c96 100644
--- a/soapfish/soap12.py
+++ b/soapfish/soap12.py
@@ -10,7 +10,7 @@ NAME = 'soap12'
 
 # --- Functions ---------------------------------------------------------------
 def determine_soap_action(request):
-    ct, cp = cgi.parse_header(request.environ.get('CONTENT_TYPE', ''))
+    ct, cp = cgi.parse_header(request.environ.get('CONTENT_TYPE') or '')
     return cp.get('action') if ct == CONTENT_TYPE else None
 
 
-- 
2.43.0


From 8456504907722bdd6f1df2b8da180d1e4604d660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 040/100] fix: serve the WSDL with the right scheme

The WSGI name of the X-Forwarded-Proto header is HTTP_X_FORWARDED_PROTO, and
the environment wrapper for Django did not find 'wsgi.url_scheme'.
---
 soapfish/django_.py       | 4 ++--
 soapfish/soap_dispatch.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/soapfish/django_.py b/soapfish/django_.py
index 3b413cc..cbb7a36 100644
--- a/soapfish/django_.py
+++ b/soapfish/django_.py
@@ -9,8 +9,8 @@ class DjangoEnvironWrapper:
         self.environ = environ
 
     def get(self, name, default=None):
-        name = name.replace('-', '_').upper()
-        for key in (name, 'HTTP_' + name):
+        normalized_name = name.replace('-', '_').upper()
+        for key in (name, normalized_name, 'HTTP_' + normalized_name):
             if key in self.environ:
                 return self.environ[key]
         return default
diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index c29d644..9506212 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -225,7 +225,8 @@ class SOAPDispatcher:
 
     def handle_wsdl_request(self, request):
         request = self._call_hook('wsdl-request', dispatcher=self, request=request)
-        scheme = request.environ.get('X_FORWARDED_PROTO', request.environ.get('wsgi.url_scheme', 'http'))
+        forwarded = request.environ.get('HTTP_X_FORWARDED_PROTO', request.environ.get('X_FORWARDED_PROTO'))
+        scheme = forwarded or request.environ.get('wsgi.url_scheme', 'http')
         host = request.environ.get('HTTP_HOST')
         wsdl = self.wsdl
         if scheme and host:
-- 
2.43.0


From 6f77f7820cbe7e8059319c07fb840cc1a037ffb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 041/100] fix: pass request bodies of any content type to the
 dispatcher in Flask

request.data is empty if Flask parsed the body as form.
---
 soapfish/flask_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/flask_.py b/soapfish/flask_.py
index 3c6894f..9480883 100644
--- a/soapfish/flask_.py
+++ b/soapfish/flask_.py
@@ -8,7 +8,7 @@ def flask_dispatcher(service, **dispatcher_kwargs):
     from flask import request, Response
 
     def flask_dispatch():
-        soap_request = SOAPRequest(request.environ, request.data)
+        soap_request = SOAPRequest(request.environ, request.get_data())
         soap_request._original_request = request
         soap_dispatcher = SOAPDispatcher(service, **dispatcher_kwargs)
         soap_response = soap_dispatcher.dispatch(soap_request)
-- 
2.43.0


From 5afd62b6a2153b88c277a89be4c11f5f80f72e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 042/100] fix: parse response headers declared for the whole
 service in the client

---
 soapfish/soap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index e8ca771..a672848 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -104,8 +104,9 @@ class Stub:
         soap = self.service.version
         envelope = soap.Envelope.parsexml(content)
 
-        if envelope.Header and method and method.output_header:
-            response_header = envelope.Header.parse_as(method.output_header)
+        output_header = (method.output_header if method else None) or self.service.output_header
+        if envelope.Header and output_header:
+            response_header = envelope.Header.parse_as(output_header)
         else:
             response_header = None
 
-- 
2.43.0


From 203457aa9dd1a3a5b558cbd0085dd01cc5ae2a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 043/100] fix: serve a well-formed WSDL for any Host header

---
 soapfish/soap_dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 9506212..e485130 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -230,7 +230,7 @@ class SOAPDispatcher:
         host = request.environ.get('HTTP_HOST')
         wsdl = self.wsdl
         if scheme and host:
-            context = {'scheme': scheme, 'host': host}
+            context = {'scheme': replace_invalid_characters(scheme), 'host': replace_invalid_characters(host)}
             quoted = lambda match: escape(context[match.group(1) or match.group(2)], {'"': '&quot;'})
             # Not a string.Template because that also replaces '$$' anywhere in the document.
             wsdl = re.sub(r'\$(?:(scheme|host)\b|\{(scheme|host)\})', quoted, wsdl.decode()).encode()
-- 
2.43.0


From 7bec3ff418f17831fa762737d8ee8006fbc7a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 044/100] fix: write values from XSDs and WSDLs as Python
 literals in generated code

Quotes, backslashes and line breaks in enumerations, patterns, namespaces,
locations and SOAP actions resulted in syntax errors, wrong values or even
arbitrary code in the generated module.
---
 soapfish/templates/lib.jinja2  | 44 +++++++++++++++++-----------------
 soapfish/templates/wsdl.jinja2 | 14 +++++------
 soapfish/templates/xsd.jinja2  |  2 +-
 soapfish/utils.py              | 17 +++++++++++++
 4 files changed, 47 insertions(+), 30 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 555aca6..b8622d7 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -15,15 +15,15 @@
 Schema_{{ schema_name(schema) }} = xsd.Schema(
     imports=[{% for i in schema.imports %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     includes=[{% for i in schema.includes %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    targetNamespace='{{ schema.targetNamespace }}',
+    targetNamespace={{ schema.targetNamespace|literal }},
     {%- if location %}
-    location='{{ location|url_template }}',{% endif %}
-    elementFormDefault='{{ schema.elementFormDefault }}',
+    location={{ location|url_template|literal }},{% endif %}
+    elementFormDefault={{ schema.elementFormDefault|literal }},
     simpleTypes=[{% for st in schema.simpleTypes %}{{ st.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     groups=[{% for g in schema.groups %}{{ g.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     complexTypes=[{% for ct in schema.complexTypes %}{{ ct.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type %}{{ e|type(known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup="{{ e.substitutionGroup }}"{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
+    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type %}{{ e|type(known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup={{ e.substitutionGroup|literal }}{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
 )
 {%- if location %}
 {# [blank line] #}
@@ -64,20 +64,20 @@ class {{ group.name|capitalize }}(xsd.Group):
 {% macro render_xsd_Restriction(name, restriction, known_types=None) -%}
 class {{ name|capitalize }}({{ restriction|type(known_types) }}):
 {%- if restriction.enumerations %}
-    enumeration = [{% for enum in restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}]
+    enumeration = [{% for enum in restriction.enumerations %}{{ enum.value|literal }}{% if not loop.last %}, {% endif %}{% endfor %}]
 {%- endif %}
 {%- if restriction.pattern %}
-    pattern = r'{{ restriction.pattern.value }}'
+    pattern = {{ restriction.pattern.value|raw_literal }}
 {%- endif %}
 {%- if restriction.minInclusive %}
-    minInclusive = r'{{ restriction.minInclusive.value }}'
+    minInclusive = {{ restriction.minInclusive.value|raw_literal }}
 {%- elif restriction.minExclusive %}
-    minExclusive = r'{{ restriction.minExclusive.value }}'
+    minExclusive = {{ restriction.minExclusive.value|raw_literal }}
 {%- endif %}
 {%- if restriction.maxInclusive %}
-    maxInclusive = r'{{ restriction.maxInclusive.value }}'
+    maxInclusive = {{ restriction.maxInclusive.value|raw_literal }}
 {%- elif restriction.maxExclusive %}
-    maxExclusive = r'{{ restriction.maxExclusive.value }}'
+    maxExclusive = {{ restriction.maxExclusive.value|raw_literal }}
 {%- endif %}
 {%- if not restriction.enumerations and not restriction.pattern
         and not restriction.minInclusive and not restriction.minExclusive
@@ -144,20 +144,20 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {%- if element.simpleType %}
     {{ element.name|fix_keyword }} = xsd.Element({{ element.simpleType.restriction|type(known_types) }}(
     {%- if element.simpleType.restriction.enumerations -%}
-    enumeration=[{% for enum in element.simpleType.restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}],
+    enumeration=[{% for enum in element.simpleType.restriction.enumerations %}{{ enum.value|literal }}{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- endif %}
     {%- if element.name in keywords %}tagname='{{ element.name }}',{% endif %}
-    {%- if element.simpleType.restriction.minInclusive %}minInclusive={{ element.simpleType.restriction.minInclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxInclusive %}maxInclusive={{ element.simpleType.restriction.maxInclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.minExclusive %}minExclusive={{ element.simpleType.restriction.minExclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxExclusive %}maxExclusive={{ element.simpleType.restriction.maxExclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.fractionDigits %}fractionDigits={{ element.simpleType.restriction.fractionDigits.value }},{% endif %}
-    {%- if element.simpleType.restriction.totalDigits %}totalDigits={{ element.simpleType.restriction.totalDigits.value }},{% endif %}
-    {%- if element.simpleType.restriction.pattern %}pattern=r'{{ element.simpleType.restriction.pattern.value }}',{% endif %}
-    {%- if element.simpleType.restriction.length %}length={{ element.simpleType.restriction.length.value }},{% endif %}
-    {%- if element.simpleType.restriction.minLength %}minLength={{ element.simpleType.restriction.minLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxLength %}maxLength={{ element.simpleType.restriction.maxLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace={{ element.simpleType.restriction.whiteSpace.value }},{% endif %}))
+    {%- if element.simpleType.restriction.minInclusive %}minInclusive={{ element.simpleType.restriction.minInclusive.value|number }},{% endif %}
+    {%- if element.simpleType.restriction.maxInclusive %}maxInclusive={{ element.simpleType.restriction.maxInclusive.value|number }},{% endif %}
+    {%- if element.simpleType.restriction.minExclusive %}minExclusive={{ element.simpleType.restriction.minExclusive.value|number }},{% endif %}
+    {%- if element.simpleType.restriction.maxExclusive %}maxExclusive={{ element.simpleType.restriction.maxExclusive.value|number }},{% endif %}
+    {%- if element.simpleType.restriction.fractionDigits %}fractionDigits={{ element.simpleType.restriction.fractionDigits.value|number }},{% endif %}
+    {%- if element.simpleType.restriction.totalDigits %}totalDigits={{ element.simpleType.restriction.totalDigits.value|number }},{% endif %}
+    {%- if element.simpleType.restriction.pattern %}pattern={{ element.simpleType.restriction.pattern.value|raw_literal }},{% endif %}
+    {%- if element.simpleType.restriction.length %}length={{ element.simpleType.restriction.length.value|number }},{% endif %}
+    {%- if element.simpleType.restriction.minLength %}minLength={{ element.simpleType.restriction.minLength.value|number }},{% endif %}
+    {%- if element.simpleType.restriction.maxLength %}maxLength={{ element.simpleType.restriction.maxLength.value|number }},{% endif %}
+    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace={{ element.simpleType.restriction.whiteSpace.value|literal }},{% endif %}))
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 5476ef5..9822067 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -71,7 +71,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {{ operation.name }}_method = xsd.Method(
     {% if is_server %}function={{ operation.name }},
     {% endif -%}
-    soapAction='{{ operation.operation.soapAction }}',
+    soapAction={{ operation.operation.soapAction|literal }},
     {%- if _im.parts -%}
     {%- if _im.part.element %}
     input='{{ _im.part.element|remove_namespace }}',
@@ -96,7 +96,7 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- endif %}
     operationName='{{ operation.name }}',
     {%- if operation.operation.style %}
-    style='{{ operation.operation.style }}',
+    style={{ operation.operation.style|literal }},
     {%- endif %}
 )
 {# [blank line] #}
@@ -108,8 +108,8 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 {{ port.name }}_SERVICE = soap.Service(
     name='{{ port.name }}',
-    targetNamespace='{{ definitions.targetNamespace }}',
-    location='{{ port.address.location|url_template }}',
+    targetNamespace={{ definitions.targetNamespace|literal }},
+    location={{ port.address.location|url_template|literal }},
     schemas=[{% for s in definitions.types.schemas %}Schema_{{ schema_name(s) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- if soap_version.NAME == 'soap11' %}
     version=soap.SOAPVersion.SOAP11,
@@ -131,7 +131,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 # NOTE: Put these lines in the urls.py for your project or application:
 # urlpatterns += patterns('',
-#     (r'{{ service.ports.0.address.location|url_regex }}', '<module>.dispatcher'),
+#     ({{ service.ports.0.address.location|url_regex|raw_literal }}, '<module>.dispatcher'),
 # )
 {%- else %}
 ##############################################################################
@@ -140,8 +140,8 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 class {{ port.name }}ServiceStub(soap.Stub):
     SERVICE = {{ port.name }}_SERVICE
-    SCHEME = '{{ port.address.location|url_component('scheme') }}'
-    HOST = '{{ port.address.location|url_component('netloc') }}'
+    SCHEME = {{ port.address.location|url_component('scheme')|literal }}
+    HOST = {{ port.address.location|url_component('netloc')|literal }}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
     def {{ operation.name }}(self, {{ _im.part.element|remove_namespace }}, header=None):
diff --git a/soapfish/templates/xsd.jinja2 b/soapfish/templates/xsd.jinja2
index be4442b..7b49d8c 100644
--- a/soapfish/templates/xsd.jinja2
+++ b/soapfish/templates/xsd.jinja2
@@ -15,7 +15,7 @@ from soapfish import xsd
 {%- if not i.schemaLocation %}{% continue %}{% endif -%}
 {{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path) }}
 {%- endfor %}
-# {% if location %}{{ location }} - {% endif -%} {{ schema.targetNamespace }}{# Output the name of the schema in a comment. #}
+# {% if location %}{{ location|comment }} - {% endif -%} {{ schema.targetNamespace|comment }}{# Output the name of the schema in a comment. #}
 {# [blank line] #}
 {# [blank line] #}
 {#- Simple Types -#}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 516b9fd..47a823f 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -142,6 +142,19 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         else:
             return f"__name__ + '.{name}'"
 
+    def literal(value):
+        return repr(None if value is None else str(value))
+
+    def raw_literal(value):
+        value = str(value)
+        return f"r'{value}'" if value.isprintable() and "'" not in value and not value.endswith('\\') else literal(value)
+
+    def number(value):
+        return value.strip() if re.fullmatch(r'\s*[-+]?([1-9][0-9]*|0|[0-9]*\.[0-9]+)\s*', value) else literal(value)
+
+    def comment(value):
+        return ' '.join(str(value).split())
+
     keywords = set(keyword.kwlist)
 
     env = Environment(
@@ -150,8 +163,12 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     )
     env.filters.update(
         capitalize=capitalize,
+        comment=comment,
         fix_keyword=lambda x: f'_{x}' if str(x) in keywords else str(x),
+        literal=literal,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
+        number=number,
+        raw_literal=raw_literal,
         remove_namespace=remove_namespace,
         type=get_type,
         url_component=url_component,
-- 
2.43.0


From 9fbcc89d8968c11c104f4d0d2b5318ad8a68bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 045/100] fix: keep all facets, occurrence and nillability of
 restricted types in generated code

---
 soapfish/templates/lib.jinja2 | 58 ++++++++++-------------------------
 soapfish/utils.py             | 20 +++++++++++-
 2 files changed, 35 insertions(+), 43 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index b8622d7..090a7ad 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -23,7 +23,7 @@ Schema_{{ schema_name(schema) }} = xsd.Schema(
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     groups=[{% for g in schema.groups %}{{ g.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     complexTypes=[{% for ct in schema.complexTypes %}{{ ct.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type %}{{ e|type(known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup={{ e.substitutionGroup|literal }}{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
+    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type or e.simpleType %}{{ render_xsd_type(e, known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup={{ e.substitutionGroup|literal }}{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
 )
 {%- if location %}
 {# [blank line] #}
@@ -55,7 +55,7 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 class {{ group.name|capitalize }}(xsd.Group):
     {%- for element in group.sequence.elements %}
     {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %})
+    {{ name|fix_keyword }} = xsd.Element({{ render_xsd_type(element, known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -63,27 +63,11 @@ class {{ group.name|capitalize }}(xsd.Group):
 
 {% macro render_xsd_Restriction(name, restriction, known_types=None) -%}
 class {{ name|capitalize }}({{ restriction|type(known_types) }}):
-{%- if restriction.enumerations %}
-    enumeration = [{% for enum in restriction.enumerations %}{{ enum.value|literal }}{% if not loop.last %}, {% endif %}{% endfor %}]
-{%- endif %}
-{%- if restriction.pattern %}
-    pattern = {{ restriction.pattern.value|raw_literal }}
-{%- endif %}
-{%- if restriction.minInclusive %}
-    minInclusive = {{ restriction.minInclusive.value|raw_literal }}
-{%- elif restriction.minExclusive %}
-    minExclusive = {{ restriction.minExclusive.value|raw_literal }}
-{%- endif %}
-{%- if restriction.maxInclusive %}
-    maxInclusive = {{ restriction.maxInclusive.value|raw_literal }}
-{%- elif restriction.maxExclusive %}
-    maxExclusive = {{ restriction.maxExclusive.value|raw_literal }}
-{%- endif %}
-{%- if not restriction.enumerations and not restriction.pattern
-        and not restriction.minInclusive and not restriction.minExclusive
-        and not restriction.maxInclusive and not restriction.maxExclusive %}
+{%- for facet, value in restriction|facets %}
+    {{ facet }} = {{ value }}
+{%- else %}
     pass
-{%- endif %}
+{%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
 {%- endmacro %}
@@ -136,28 +120,18 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {# blank line #}
 {%- endmacro %}
 
+{% macro render_xsd_type(element, known_types=None) -%}
+{%- if element.simpleType and element.simpleType.restriction -%}
+{{ element.simpleType.restriction|type(known_types) }}({% for facet, value in element.simpleType.restriction|facets %}{{ facet }}={{ value }}{% if not loop.last %}, {% endif %}{% endfor %})
+{%- else -%}
+{{ element|type(known_types) }}
+{%- endif -%}
+{%- endmacro %}
+
 {% macro render_xsd_element(element, known_types=None) -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
-    {%- if element.type %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
-    {%- endif %}
-    {%- if element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.Element({{ element.simpleType.restriction|type(known_types) }}(
-    {%- if element.simpleType.restriction.enumerations -%}
-    enumeration=[{% for enum in element.simpleType.restriction.enumerations %}{{ enum.value|literal }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    {%- endif %}
-    {%- if element.name in keywords %}tagname='{{ element.name }}',{% endif %}
-    {%- if element.simpleType.restriction.minInclusive %}minInclusive={{ element.simpleType.restriction.minInclusive.value|number }},{% endif %}
-    {%- if element.simpleType.restriction.maxInclusive %}maxInclusive={{ element.simpleType.restriction.maxInclusive.value|number }},{% endif %}
-    {%- if element.simpleType.restriction.minExclusive %}minExclusive={{ element.simpleType.restriction.minExclusive.value|number }},{% endif %}
-    {%- if element.simpleType.restriction.maxExclusive %}maxExclusive={{ element.simpleType.restriction.maxExclusive.value|number }},{% endif %}
-    {%- if element.simpleType.restriction.fractionDigits %}fractionDigits={{ element.simpleType.restriction.fractionDigits.value|number }},{% endif %}
-    {%- if element.simpleType.restriction.totalDigits %}totalDigits={{ element.simpleType.restriction.totalDigits.value|number }},{% endif %}
-    {%- if element.simpleType.restriction.pattern %}pattern={{ element.simpleType.restriction.pattern.value|raw_literal }},{% endif %}
-    {%- if element.simpleType.restriction.length %}length={{ element.simpleType.restriction.length.value|number }},{% endif %}
-    {%- if element.simpleType.restriction.minLength %}minLength={{ element.simpleType.restriction.minLength.value|number }},{% endif %}
-    {%- if element.simpleType.restriction.maxLength %}maxLength={{ element.simpleType.restriction.maxLength.value|number }},{% endif %}
-    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace={{ element.simpleType.restriction.whiteSpace.value|literal }},{% endif %}))
+    {%- if element.type or element.simpleType %}
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ render_xsd_type(element, known_types) }}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 47a823f..83ed068 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -150,7 +150,24 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         return f"r'{value}'" if value.isprintable() and "'" not in value and not value.endswith('\\') else literal(value)
 
     def number(value):
-        return value.strip() if re.fullmatch(r'\s*[-+]?([1-9][0-9]*|0|[0-9]*\.[0-9]+)\s*', value) else literal(value)
+        if re.fullmatch(r'\s*[-+]?[0-9]+\s*', value, re.ASCII):
+            return str(int(value))
+        return value.strip() if re.fullmatch(r'\s*[-+]?[0-9]*\.[0-9]+\s*', value) else literal(value)
+
+    def facets(restriction):
+        """List the facets of a restriction as pairs of a name and the Python source code of the value."""
+        items = []
+        if restriction.enumerations:
+            items.append(('enumeration', '[%s]' % ', '.join(literal(e.value) for e in restriction.enumerations)))
+        for name in ('minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive', 'fractionDigits', 'totalDigits',
+                     'length', 'minLength', 'maxLength'):
+            if getattr(restriction, name):
+                items.append((name, number(getattr(restriction, name).value)))
+        if restriction.pattern:
+            items.append(('pattern', raw_literal(restriction.pattern.value)))
+        if restriction.whiteSpace:
+            items.append(('whiteSpace', literal(restriction.whiteSpace.value)))
+        return items
 
     def comment(value):
         return ' '.join(str(value).split())
@@ -164,6 +181,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     env.filters.update(
         capitalize=capitalize,
         comment=comment,
+        facets=facets,
         fix_keyword=lambda x: f'_{x}' if str(x) in keywords else str(x),
         literal=literal,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
-- 
2.43.0


From 3c53fcf565723b7d2ed8d45b7f8f38f886b48371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 046/100] fix: define base types before derived types in
 generated code

---
 soapfish/xsd2py.py | 62 +++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index f8aee95..0ea69f4 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python
 
 import argparse
-import functools
 import itertools
 import logging
 import os
@@ -11,7 +10,7 @@ from urllib.parse import urljoin
 from lxml import etree
 
 from . import xsdspec
-from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
+from .utils import find_xsd_namespaces, get_rendering_environment, open_document, remove_namespace, resolve_location
 
 logger = logging.getLogger('soapfish')
 
@@ -77,44 +76,32 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
     return code.encode(encoding) if encoding else code
 
 
-def _reorder_complexTypes(schema):
-    """Reorder complexTypes to render base extension/restriction elements render before the children."""
-    weights = {}
-    for n, complex_type in enumerate(schema.complexTypes):
-        content = complex_type.complexContent
-        if content:
-            extension = content.extension
-            restriction = content.restriction
-            if extension:
-                base = extension.base
-            elif restriction:
-                base = restriction.base
-        else:
-            base = ''
+def _reorder_types(types, get_base):
+    """Reorder types so that the base of an extension/restriction is rendered before the types derived from it."""
+    pending = {remove_namespace(t.name): t for t in types}
+    ordered = []
+
+    def visit(item):
+        if pending.pop(remove_namespace(item.name), None) is None:
+            return
+        base = pending.get(remove_namespace(get_base(item)))
+        if base is not None:
+            visit(base)
+        ordered.append(item)
+
+    for item in list(types):
+        visit(item)
+    types[:] = ordered
 
-        weights[complex_type.name] = (n, base)
 
-    def _cmp(a, b):
-        a = getattr(a, 'name', a)
-        b = getattr(b, 'name', b)
+def _get_complexType_base(complex_type):
+    content = complex_type.complexContent
+    derivation = content and (content.extension or content.restriction)
+    return derivation.base if derivation else None
 
-        w_a, base_a = weights[a]
-        w_b, base_b = weights[b]
-        # a and b are not extension/restriction
-        if not base_a and not base_b:
-            return w_a - w_b
-        is_extension = lambda obj, base: obj == base
-        has_namespace = lambda base: ':' in base
-        # a is a extension/restriction of b: a > b
-        if is_extension(b, base_a) or has_namespace(base_a):
-            return 1
-        # b is a extension/restriction of a: a < b
-        elif is_extension(a, base_b) or has_namespace(base_b):
-            return -1
-        # inconclusive, do the same test with their bases
-        return _cmp(base_a or a, base_b or b)
 
-    schema.complexTypes.sort(key=functools.cmp_to_key(_cmp))
+def _get_simpleType_base(simple_type):
+    return simple_type.restriction.base if simple_type.restriction else None
 
 
 def schema_to_py(schema, xsd_namespaces,
@@ -126,7 +113,8 @@ def schema_to_py(schema, xsd_namespaces,
     if base_path:
         rewrite_paths(schema, cwd, base_path)
 
-    _reorder_complexTypes(schema)
+    _reorder_types(schema.simpleTypes, _get_simpleType_base)
+    _reorder_types(schema.complexTypes, _get_complexType_base)
 
     if known_paths is None:
         known_paths = []
-- 
2.43.0


From 8a6017273f747ae6b05a251066272dfdc57369fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 047/100] fix: support elements of a recursive type

---
 soapfish/xsd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index a757809..989c0e8 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -660,6 +660,8 @@ class Element:
 
     def accept(self, value):
         """Check if the value correct from type defined in constructions."""
+        if value is None:
+            return None  # The type must not be evaluated when an object is created as it might be recursive.
         self._evaluate_type()
         if value is NIL:
             if self.nillable:
-- 
2.43.0


From 51e051a18e227251d1c5bcfaf879096e69283a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 048/100] fix: pass the namespace of the parent to included
 schemas without namespace

---
 soapfish/xsd2py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 0ea69f4..64e4783 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -70,8 +70,8 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
         return ''
 
     code = schema_to_py(schema, xsd_namespaces, known_paths, known_types,
-                        location, cwd=cwd, base_path=base_path,
-                        standalone=standalone)
+                        location, parent_namespace=parent_namespace, cwd=cwd,
+                        base_path=base_path, standalone=standalone)
 
     return code.encode(encoding) if encoding else code
 
-- 
2.43.0


From fe40180aa13fcd0f04adc53ad03a35d24f5fe1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 049/100] fix: generate code for files which import each other
 or are imported repeatedly

---
 soapfish/templates/lib.jinja2 |  6 ++--
 soapfish/templates/xsd.jinja2 |  6 ++--
 soapfish/wsdl2py.py           |  9 +++--
 soapfish/xsd.py               | 21 ++++++-----
 soapfish/xsd2py.py            | 65 ++++++++++++++++++++++++++++++-----
 5 files changed, 81 insertions(+), 26 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 090a7ad..d4771da 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -11,10 +11,10 @@
 {%- endif -%}
 {%- endmacro %}
 
-{% macro render_Schema(schema, location, known_types=None) -%}
+{% macro render_Schema(schema, location, references, known_types=None) -%}
 Schema_{{ schema_name(schema) }} = xsd.Schema(
-    imports=[{% for i in schema.imports %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    includes=[{% for i in schema.includes %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
+    imports=[{% for i in references.imports %}Schema_{{ i }}{% if not loop.last %}, {% endif %}{% endfor %}],
+    includes=[{% for i in references.includes %}Schema_{{ i }}{% if not loop.last %}, {% endif %}{% endfor %}],
     targetNamespace={{ schema.targetNamespace|literal }},
     {%- if location %}
     location={{ location|url_template|literal }},{% endif %}
diff --git a/soapfish/templates/xsd.jinja2 b/soapfish/templates/xsd.jinja2
index 7b49d8c..c2f64ac 100644
--- a/soapfish/templates/xsd.jinja2
+++ b/soapfish/templates/xsd.jinja2
@@ -8,12 +8,12 @@ from soapfish import xsd
 {#- XSD Includes -#}
 {%- for i in schema.includes %}
 {%- if not i.schemaLocation %}{% continue %}{% endif -%}
-{{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path) }}
+{{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path, known_schemas) }}
 {%- endfor %}
 {#- XSD Imports -#}
 {%- for i in schema.imports %}
 {%- if not i.schemaLocation %}{% continue %}{% endif -%}
-{{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path) }}
+{{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path, known_schemas) }}
 {%- endfor %}
 # {% if location %}{{ location|comment }} - {% endif -%} {{ schema.targetNamespace|comment }}{# Output the name of the schema in a comment. #}
 {# [blank line] #}
@@ -45,5 +45,5 @@ from soapfish import xsd
 {% for element in schema.elements if element.complexType -%}
 {{ lib.render_complexType(element.name, element.complexType, known_types) }}
 {%- endfor %}
-{{ lib.render_Schema(schema, location, known_types) }}
+{%- do known_schemas.add(schema, location, known_types, lib.render_Schema) -%}
 {#- vim:set et ft=django nowrap sts=4 sw=4 ts=4: -#}
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 1e3f323..58b4eee 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -11,7 +11,7 @@ from lxml import etree
 from .soap import SOAPVersion
 from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
 from .wsdl import get_wsdl_classes
-from .xsd2py import schema_to_py
+from .xsd2py import SchemaCollection, schema_to_py
 
 logger = logging.getLogger('soapfish')
 
@@ -87,9 +87,12 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     definitions = wsdl.Definitions.parse_xmlelement(xml)
     merge_imports(wsdl, definitions, xsd_namespaces, cwd=cwd)
 
-    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace}
+    # Files imported by several schemas must be processed only once.
+    collection = SchemaCollection()
+    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace, 'known_schemas': collection,
+          'known_paths': [], 'known_types': []}
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
-    schemas = ''.join(schema_to_py(schema, xsd_namespaces, **kw) for schema in schemas)
+    schemas = ''.join(schema_to_py(schema, xsd_namespaces, **kw) for schema in schemas) + collection.render()
 
     env = get_rendering_environment(xsd_namespaces, module='soapfish.wsdl2py')
     tpl = env.get_template('wsdl.jinja2')
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 989c0e8..e2297b8 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1190,8 +1190,8 @@ class Schema:
         self.groups = groups or []
         self.complexTypes = complexTypes or []
         self.elements = elements or {}
-        self.imports = imports or ()
-        self.includes = includes or ()
+        self.imports = [] if imports is None else imports
+        self.includes = [] if includes is None else includes
         self.location = location
 
         self.__init_schema(self.simpleTypes)
@@ -1221,13 +1221,16 @@ class Schema:
             t._force_elements_type_evalution()
 
     def get_element_by_name(self, name):
-        if name in self.elements:
-            return self.elements[name]
-
-        for i in itertools.chain(self.imports, self.includes):
-            element = i.get_element_by_name(name)
-            if element is not None:
-                return element
+        seen = []  # Schemas might import or include each other.
+        pending = [self]
+        while pending:
+            schema = pending.pop(0)
+            if any(schema is x for x in seen):
+                continue
+            seen.append(schema)
+            if name in schema.elements:
+                return schema.elements[name]
+            pending[:0] = itertools.chain(schema.imports, schema.includes)
 
         return None
 
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 64e4783..11057bd 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -10,7 +10,9 @@ from urllib.parse import urljoin
 from lxml import etree
 
 from . import xsdspec
-from .utils import find_xsd_namespaces, get_rendering_environment, open_document, remove_namespace, resolve_location
+from .utils import (
+    find_xsd_namespaces, get_rendering_environment, open_document, remove_namespace, resolve_location, schema_name,
+)
 
 logger = logging.getLogger('soapfish')
 
@@ -35,7 +37,46 @@ def rewrite_paths(schema, cwd, base_path):
             i.schemaLocation = os.path.relpath(path, base_path)
 
 
-def resolve_import(i, known_paths, known_types, parent_namespace, cwd, base_path):
+class SchemaCollection:
+    """
+    Collect the code of all schema objects.
+
+    Files might depend on each other so schema objects can only be created after the types of all files are defined.
+    """
+
+    def __init__(self):
+        self._names = set()
+        self._code = []
+        self._pending = []
+
+    def add(self, schema, location, known_types, render):
+        name = schema_name(schema, location)
+        references = {}
+        for attr in ('imports', 'includes'):
+            references[attr] = []
+            for i in getattr(schema, attr):
+                namespace = schema.targetNamespace if isinstance(i, xsdspec.Include) else i.namespace
+                if not i.schemaLocation and not namespace:
+                    continue
+                # Files are identified by their location and everything else by the namespace.
+                reference = schema_name(i, i.schemaLocation or namespace)
+                if reference in self._names:
+                    references[attr].append(reference)
+                else:
+                    self._pending.append((name, attr, reference, namespace and schema_name(i, namespace)))
+        self._code.append(render(schema, location, references, known_types))
+        self._names.update({name, schema_name(schema)})
+
+    def render(self):
+        code = list(self._code)
+        for name, attr, *candidates in self._pending:
+            reference = next((x for x in candidates if x in self._names), None)
+            if reference:
+                code.append(f'Schema_{name}.{attr}.append(Schema_{reference})\n')
+        return ''.join(code)
+
+
+def resolve_import(i, known_paths, known_types, parent_namespace, cwd, base_path, known_schemas=None):
     assert isinstance(i, (xsdspec.Import, xsdspec.Include))
     path, cwd, location = resolve_location(i.schemaLocation, base_path)
     tag = i.__class__.__name__.lower()
@@ -44,13 +85,14 @@ def resolve_import(i, known_paths, known_types, parent_namespace, cwd, base_path
 
     return generate_code_from_xsd(xml, known_paths, known_types, location,
                                   parent_namespace, encoding=None, cwd=cwd,
-                                  base_path=base_path, standalone=False)
+                                  base_path=base_path, standalone=False,
+                                  known_schemas=known_schemas)
 
 
 def generate_code_from_xsd(xml, known_paths=None, known_types=None,
                            location=None, parent_namespace=None,
                            encoding='utf8', cwd=None, base_path=None,
-                           standalone=True):
+                           standalone=True, known_schemas=None):
 
     if isinstance(xml, bytes):
         xml = etree.fromstring(xml)
@@ -71,7 +113,8 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
 
     code = schema_to_py(schema, xsd_namespaces, known_paths, known_types,
                         location, parent_namespace=parent_namespace, cwd=cwd,
-                        base_path=base_path, standalone=standalone)
+                        base_path=base_path, standalone=standalone,
+                        known_schemas=known_schemas)
 
     return code.encode(encoding) if encoding else code
 
@@ -107,7 +150,7 @@ def _get_simpleType_base(simple_type):
 def schema_to_py(schema, xsd_namespaces,
                  known_paths=None, known_types=None, location=None,
                  parent_namespace=None, cwd=None, base_path=None,
-                 standalone=False):
+                 standalone=False, known_schemas=None):
     if base_path is None:
         base_path = cwd
     if base_path:
@@ -127,10 +170,13 @@ def schema_to_py(schema, xsd_namespaces,
     if known_types is None:
         known_types = []
 
+    schemas = SchemaCollection() if known_schemas is None else known_schemas
+
     env = get_rendering_environment(xsd_namespaces, module='soapfish.xsd2py')
     env.globals.update(
         known_paths=known_paths,
         known_types=known_types,
+        known_schemas=schemas,
         location=location,
         resolve_import=resolve_import,
     )
@@ -138,7 +184,8 @@ def schema_to_py(schema, xsd_namespaces,
         del env.globals['preamble']
     tpl = env.get_template('xsd.jinja2')
 
-    return tpl.render(schema=schema, cwd=cwd, base_path=base_path)
+    code = tpl.render(schema=schema, cwd=cwd, base_path=base_path)
+    return code if schemas is known_schemas else code + schemas.render()
 
 
 # --- Program -----------------------------------------------------------------
@@ -161,7 +208,9 @@ def main(argv=None):
     xml = stdin.read() if opt.xsd == '-' else open_document(opt.xsd)
     cwd = opt.xsd if '://' in opt.xsd else os.path.abspath(opt.xsd)
     cwd = os.path.dirname(cwd)
-    code = generate_code_from_xsd(xml, encoding='utf-8', cwd=cwd)
+    # The document itself might be included or imported by one of its dependencies.
+    known_paths = [] if opt.xsd == '-' else [os.path.basename(opt.xsd)] if '://' not in opt.xsd else [opt.xsd]
+    code = generate_code_from_xsd(xml, known_paths=known_paths, encoding='utf-8', cwd=cwd)
 
     opt.output.write(code.strip())
 
-- 
2.43.0


From cd75b03f42bb237e215dca77f2600128a8e0adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 050/100] fix: resolve imports of WSDL documents relative to
 the importing document

---
 soapfish/utils.py   | 10 +++++-----
 soapfish/wsdl2py.py | 15 +++++++++++----
 soapfish/xsd2py.py  |  2 +-
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 83ed068..7d557a0 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -5,7 +5,7 @@ import logging
 import os
 import re
 from datetime import datetime, timedelta, timezone
-from urllib.parse import urlparse, urlunparse
+from urllib.parse import urljoin, urlparse, urlunparse
 
 import requests
 from jinja2 import Environment, PackageLoader
@@ -17,12 +17,12 @@ logger = logging.getLogger('soapfish')
 
 # --- File Functions ----------------------------------------------------------
 def resolve_location(path, cwd):
-    if '://' in path:
-        location = path
+    if '://' in path or '://' in cwd:
+        path = location = urljoin(cwd + '/', path)
     else:
-        path = os.path.join(cwd, path)
+        path = os.path.normpath(os.path.join(cwd, path))
         location = os.path.relpath(path, cwd)
-        cwd = os.path.dirname(path)
+    cwd = os.path.dirname(path)
     return path, cwd, location
 
 
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 58b4eee..1f863a1 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -11,7 +11,7 @@ from lxml import etree
 from .soap import SOAPVersion
 from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
 from .wsdl import get_wsdl_classes
-from .xsd2py import SchemaCollection, schema_to_py
+from .xsd2py import SchemaCollection, rewrite_paths, schema_to_py
 
 logger = logging.getLogger('soapfish')
 
@@ -32,7 +32,7 @@ def reorder_schemas(schemas):
     return schemas
 
 
-def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
+def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, base_path=None):
 
     def deduplicate(seq):
         seen = set()
@@ -41,8 +41,11 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
     if seen is None:
         seen = set()
 
+    if base_path is None:
+        base_path = cwd
+
     for i in definitions.imports:
-        path, cwd, location = resolve_location(i.location, cwd)
+        path, import_cwd, _ = resolve_location(i.location, cwd)
 
         if path in seen:
             continue
@@ -56,8 +59,12 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
 
         imported = wsdl.Definitions.parse_xmlelement(xml)
 
+        # Schemas will be resolved relative to the main document.
+        for schema in (imported.types.schemas if imported.types else []):
+            rewrite_paths(schema, import_cwd, base_path)
+
         if imported.imports:
-            merge_imports(wsdl, imported, xsd_namespaces, cwd=cwd, seen=seen)
+            merge_imports(wsdl, imported, xsd_namespaces, cwd=import_cwd, seen=seen, base_path=base_path)
 
         if imported.types and imported.types.schemas:
             if not definitions.types:
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 11057bd..a87a728 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -30,7 +30,7 @@ def rewrite_paths(schema, cwd, base_path):
             continue
         elif '://' in cwd:
             # remote files must handle paths as url.
-            i.schemaLocation = urljoin(cwd, i.schemaLocation)
+            i.schemaLocation = urljoin(cwd + '/', i.schemaLocation)
         else:
             # local files should handle relative paths.
             path = os.path.normpath(os.path.join(cwd, i.schemaLocation))
-- 
2.43.0


From 03880ef33063399f6107111560589d6609054a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 051/100] fix: match elements by their declared tag name only

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index e2297b8..9a9f902 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1018,7 +1018,7 @@ class ComplexType(Type, metaclass=Complex_PythonType):
             # Comment, processing instruction or entity reference.
             return False
         ns, tag = gettagns(xmlelement.tag)
-        return tag == field._name or tag == field.tagname
+        return tag == (field.tagname or field._name)
 
     @classmethod
     def _find_subelement(cls, field, xmlelement):
-- 
2.43.0


From d5ace2742d932009258874de8be1e1092135d618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 052/100] fix: generate valid Python names for all XML names

---
 soapfish/templates/lib.jinja2  | 26 ++++++++++++------
 soapfish/templates/wsdl.jinja2 | 50 +++++++++++++++++-----------------
 soapfish/utils.py              | 18 +++++++++---
 3 files changed, 56 insertions(+), 38 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index d4771da..56aa6d0 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -23,7 +23,7 @@ Schema_{{ schema_name(schema) }} = xsd.Schema(
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     groups=[{% for g in schema.groups %}{{ g.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     complexTypes=[{% for ct in schema.complexTypes %}{{ ct.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type or e.simpleType %}{{ render_xsd_type(e, known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup={{ e.substitutionGroup|literal }}{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
+    elements={{ '{' }}{% for e in schema.elements %}{{ e.name|literal }}: xsd.Element({% if e.type or e.simpleType %}{{ render_xsd_type(e, known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup={{ e.substitutionGroup|literal }}{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
 )
 {%- if location %}
 {# [blank line] #}
@@ -45,7 +45,7 @@ class {{ name|capitalize }}(xsd.List):
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
     {%- for attribute in attrGroup.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -55,7 +55,7 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 class {{ group.name|capitalize }}(xsd.Group):
     {%- for element in group.sequence.elements %}
     {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-    {{ name|fix_keyword }} = xsd.Element({{ render_xsd_type(element, known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %})
+    {{ name|fix_keyword }} = xsd.Element({{ render_xsd_type(element, known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -80,11 +80,11 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- if ct.complexContent %}
     {%- if ct.complexContent.restriction %}
-class {{ ct.name|capitalize }}({{ ct.complexContent.restriction|type(known_types) }}):
+class {{ class_name|capitalize }}({{ ct.complexContent.restriction|type(known_types) }}):
     INHERITANCE = xsd.Inheritance.RESTRICTION
     {%- set content = ct.complexContent.restriction %}
     {%- else %}
-class {{ ct.name|capitalize }}({{ ct.complexContent.extension|type(known_types) }}):
+class {{ class_name|capitalize }}({{ ct.complexContent.extension|type(known_types) }}):
     INHERITANCE = xsd.Inheritance.EXTENSION
     {%- set content = ct.complexContent.extension %}
     {%- endif %}
@@ -105,10 +105,10 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
-    {{ attrGroupRef.ref|remove_namespace }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
+    {{ attrGroupRef.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
 {%- endfor %}
 {%- for element in elements -%}
     {{ render_xsd_element(element, known_types) }}
@@ -131,13 +131,21 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {% macro render_xsd_element(element, known_types=None) -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
     {%- if element.type or element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ render_xsd_type(element, known_types) }}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ render_xsd_type(element, known_types) }}{% if element.name|fix_keyword != element.name or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|literal }}{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
     {%- endif %}
     {%- if element.ref %}
-    {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
+    {{ element.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ element|type(known_types) }})
     {%- endif %}
 {%- endmacro %}
 
+{% macro render_header_part(name, element) -%}
+{%- if name|fix_keyword == element -%}
+{{ element }} = SCHEMA.get_element_by_name({{ element|literal }})
+{%- else -%}
+{{ name|fix_keyword }} = xsd.Element(SCHEMA.get_element_by_name({{ element|literal }})._passed_type, tagname={{ element|literal }}, namespace=SCHEMA.targetNamespace)
+{%- endif -%}
+{%- endmacro %}
+
 {% macro render_create_method(elements, known_types=None) -%}
 {# [blank line] #}
     @classmethod
diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 9822067..6a76d34 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -28,9 +28,9 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {# [blank line] #}
-def {{ operation.name }}(request, {{ _im.part.element|remove_namespace }}):
+def {{ operation.name|identifier }}(request, {{ _im.part.element|remove_namespace|identifier }}):
     # TODO: Put your implementation here.
-    return {{ _om.part.element|remove_namespace }}
+    return {{ _om.part.element|remove_namespace|identifier }}
 {# [blank line] #}
 {# [blank line] #}
 {%- endfor %}
@@ -45,56 +45,56 @@ def {{ operation.name }}(request, {{ _im.part.element|remove_namespace }}):
 {%- set _imh = get_message_header(definitions, binding, operation, 'input') %}
 {%- set _omh = get_message_header(definitions, binding, operation, 'output') %}
 {%- if _imh %}
-class {{ _im.name }}Headers(BaseHeader):
+class {{ (_im.name ~ 'Headers')|identifier }}(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _imh|map(attribute='element'))) }}
     {%- for part in _imh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
+    {{ lib.render_header_part(part.name, part.element|remove_namespace) }}
     {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
+    {{ part.name|fix_keyword }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
     {%- endfor %}
 {# [blank line] #}
 {%- endif -%}
 {%- if _omh %}
-class {{ _om.name }}Headers(BaseHeader):
+class {{ (_om.name ~ 'Headers')|identifier }}(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _omh|map(attribute='element'))) }}
     {%- for part in _omh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
+    {{ lib.render_header_part(part.name, part.element|remove_namespace) }}
     {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
+    {{ part.name|fix_keyword }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
     {%- endfor %}
 {# [blank line] #}
 {%- endif %}
-{{ operation.name }}_method = xsd.Method(
-    {% if is_server %}function={{ operation.name }},
+{{ (operation.name ~ '_method')|identifier }} = xsd.Method(
+    {% if is_server %}function={{ operation.name|identifier }},
     {% endif -%}
     soapAction={{ operation.operation.soapAction|literal }},
     {%- if _im.parts -%}
     {%- if _im.part.element %}
-    input='{{ _im.part.element|remove_namespace }}',
-    inputPartName='{{ _im.part.name }}',
+    input={{ _im.part.element|remove_namespace|literal }},
+    inputPartName={{ _im.part.name|literal }},
     {%- else -%}
     input={{ _im.part.type|remove_namespace|capitalize }},
     {%- endif -%}
     {%- endif -%}
     {%- if _imh %}
-    input_header={{ _im.name }}Headers,
+    input_header={{ (_im.name ~ 'Headers')|identifier }},
     {%- endif -%}
     {%- if _om.parts -%}
     {%- if _om.part.element %}
-    output='{{ _om.part.element|remove_namespace }}',
-    outputPartName='{{ _om.part.name }}',
+    output={{ _om.part.element|remove_namespace|literal }},
+    outputPartName={{ _om.part.name|literal }},
     {%- else -%}
     output={{ _om.part.type|remove_namespace|capitalize }},
     {%- endif -%}
     {%- endif -%}
     {%- if _omh %}
-    output_header={{ _om.name }}Headers,
+    output_header={{ (_om.name ~ 'Headers')|identifier }},
     {%- endif %}
-    operationName='{{ operation.name }}',
+    operationName={{ operation.name|literal }},
     {%- if operation.operation.style %}
     style={{ operation.operation.style|literal }},
     {%- endif %}
@@ -106,8 +106,8 @@ class {{ _om.name }}Headers(BaseHeader):
 # SOAP Service
 {# [blank line] #}
 {# [blank line] #}
-{{ port.name }}_SERVICE = soap.Service(
-    name='{{ port.name }}',
+{{ (port.name ~ '_SERVICE')|identifier }} = soap.Service(
+    name={{ port.name|literal }},
     targetNamespace={{ definitions.targetNamespace|literal }},
     location={{ port.address.location|url_template|literal }},
     schemas=[{% for s in definitions.types.schemas %}Schema_{{ schema_name(s) }}{% if not loop.last %}, {% endif %}{% endfor %}],
@@ -116,7 +116,7 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- else %}
     version=soap.SOAPVersion.SOAP12,
     {%- endif %}
-    methods=[{% for o in binding.operations %}{{ o.name }}_method{% if not loop.last %}, {% endif %}{% endfor %}],
+    methods=[{% for o in binding.operations %}{{ (o.name ~ '_method')|identifier }}{% if not loop.last %}, {% endif %}{% endfor %}],
 )
 {# [blank line] #}
 {# [blank line] #}
@@ -126,7 +126,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 # NOTE: Uncomment the following lines to turn on dispatching for Django:
 # from soapfish.django_ import django_dispatcher
-# dispatcher = django_dispatcher({{ port.name }}_SERVICE)
+# dispatcher = django_dispatcher({{ (port.name ~ '_SERVICE')|identifier }})
 {# [blank line] #}
 {# [blank line] #}
 # NOTE: Put these lines in the urls.py for your project or application:
@@ -138,14 +138,14 @@ class {{ _om.name }}Headers(BaseHeader):
 # SOAP Service Stub
 {# [blank line] #}
 {# [blank line] #}
-class {{ port.name }}ServiceStub(soap.Stub):
-    SERVICE = {{ port.name }}_SERVICE
+class {{ (port.name ~ 'ServiceStub')|identifier }}(soap.Stub):
+    SERVICE = {{ (port.name ~ '_SERVICE')|identifier }}
     SCHEME = {{ port.address.location|url_component('scheme')|literal }}
     HOST = {{ port.address.location|url_component('netloc')|literal }}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
-    def {{ operation.name }}(self, {{ _im.part.element|remove_namespace }}, header=None):
-        return self.call('{{ operation.name}}', {{ _im.part.element|remove_namespace }}, header=header)
+    def {{ operation.name|identifier }}(self, {{ _im.part.element|remove_namespace|identifier }}, header=None):
+        return self.call({{ operation.name|literal }}, {{ _im.part.element|remove_namespace|identifier }}, header=header)
 {% endfor %}
 {%- endif %}
 {%- endfor %}{# ports #}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 7d557a0..ef442a0 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -4,6 +4,7 @@ import keyword
 import logging
 import os
 import re
+import unicodedata
 from datetime import datetime, timedelta, timezone
 from urllib.parse import urljoin, urlparse, urlunparse
 
@@ -82,8 +83,18 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     """Return a rendering environment to use with code generation templates."""
     from . import soap, xsd, xsdspec, wsdl
 
+    keywords = set(keyword.kwlist)
+    # Names with a meaning in the generated classes.
+    reserved = {'cls', 'create', 'xsd'} | {x for x in dir(xsd.ComplexType) if not x.startswith('__')}
+
+    def identifier(value, reserved=()):
+        # Names of XML may contain characters which are not allowed in names of Python.
+        value = unicodedata.normalize('NFKC', str(value))
+        value = ''.join(x if f'_{x}'.isidentifier() else '_' for x in value)
+        return value if value.isidentifier() and value not in keywords and value not in reserved else f'_{value}'
+
     def capitalize(value):
-        return value[0].upper() + value[1:]
+        return identifier(value[0].upper() + value[1:])
 
     def use(value):
         from . import xsd
@@ -172,8 +183,6 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     def comment(value):
         return ' '.join(str(value).split())
 
-    keywords = set(keyword.kwlist)
-
     env = Environment(
         extensions=['jinja2.ext.do', 'jinja2.ext.loopcontrols'],
         loader=PackageLoader('soapfish', 'templates'),
@@ -182,7 +191,8 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         capitalize=capitalize,
         comment=comment,
         facets=facets,
-        fix_keyword=lambda x: f'_{x}' if str(x) in keywords else str(x),
+        fix_keyword=lambda x: identifier(x, reserved),
+        identifier=identifier,
         literal=literal,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
         number=number,
-- 
2.43.0


From 873c50ba96839e8f0085502d9fdfee42040c1f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 053/100] fix: generate code for fields named like their type

---
 soapfish/templates/lib.jinja2 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 56aa6d0..043feb1 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -103,6 +103,9 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     INDICATOR = xsd.Choice
     {%- set elements = content.choice.elements %}
 {%- endif %}
+{#- Types must be referenced by name if they are hidden by a field of the class. -#}
+{%- set fields = (content.attributes + (elements or []))|map(attribute='name')|select|map('fix_keyword')|list %}
+{%- set known_types = (known_types or [])|reject('in', fields)|list %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
     {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
-- 
2.43.0


From 3f1608315825a6b053cfed7a2a94a275004f98cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 054/100] fix: keep fractions of seconds, reject malformed
 dates and times

---
 soapfish/xsd.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 9a9f902..9ea98c2 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -239,7 +239,7 @@ class Date(SimpleType):
     YEAR_MONTH_DAY_REGEX = re.compile(r'''
         ^(?P<sign>\-)?
         (?P<year>\d{4,})\-(?P<month>\d{2})\-(?P<day>\d{2})
-        (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2}):?(?P<tz_minute>[0-9]{2})?))?$''', re.VERBOSE)
+        (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2}):?(?P<tz_minute>[0-5][0-9])?))?$''', re.VERBOSE)
 
     def accept(self, value):
         if value is None:
@@ -290,6 +290,7 @@ class Date(SimpleType):
 
 class DateTime(SimpleType):
     # Example text value: 2001-10-26T21:32:52
+    LEXICAL_REGEX = re.compile(r'\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d+)?(Z|[-+]\d{2}(:?[0-5]\d)?)?', re.ASCII)
 
     def accept(self, value):
         if value is None:
@@ -297,20 +298,27 @@ class DateTime(SimpleType):
         elif isinstance(value, datetime):
             return value
         elif isinstance(value, str):
-            return iso8601.parse_date(value)
+            return self._parse(value)
         raise ValueError(f"Incorrect type value '{value}' for DateTime field.")
 
     def xmlvalue(self, value):
         if value is None:
             return 'nil'
         timestring_without_tz = f'{value.year:04d}' + value.strftime('-%m-%dT%H:%M:%S')
+        if value.microsecond:
+            timestring_without_tz += f'.{value.microsecond:06d}'.rstrip('0')
         tz = value.tzinfo
         if not tz:
             return timestring_without_tz
         return timestring_without_tz + timezone_offset_to_string(tz.utcoffset(value))
 
     def pythonvalue(self, value):
-        return None if value is None or value == 'nil' else iso8601.parse_date(value.strip())
+        return None if value is None or value == 'nil' else self._parse(value)
+
+    def _parse(self, value):
+        if not self.LEXICAL_REGEX.fullmatch(value.strip()):
+            raise ValueError(f'Unable to parse datetime string {value!r}')
+        return iso8601.parse_date(value.strip())
 
 
 class Time(SimpleType):
@@ -329,6 +337,8 @@ class Time(SimpleType):
         if value is None:
             return 'nil'
         timestring_without_tz = value.strftime('%H:%M:%S')
+        if value.microsecond:
+            timestring_without_tz += f'.{value.microsecond:06d}'.rstrip('0')
         tz = value.tzinfo
         if not tz:
             return timestring_without_tz
@@ -339,6 +349,8 @@ class Time(SimpleType):
 
     @staticmethod
     def _parse(value):
+        if not re.fullmatch(r'\d{2}:\d{2}:\d{2}(\.\d+)?(Z|[-+]\d{2}(:?[0-5]\d)?)?', value.strip(), re.ASCII):
+            raise ValueError(f'Unable to parse time string {value!r}')
         # Horrible hacky approach to implement this quickly:
         try:
             dt = iso8601.parse_date('1900-01-01T' + value.strip())
-- 
2.43.0


From 16fa6786c34dd26ab5c6203ba99ff2f790ca9db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 055/100] fix: generate XSD for schema elements of a restricted
 simple type

---
 soapfish/py2xsd.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index de631a9..2b85b75 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -67,6 +67,12 @@ def xsd_attribute(attribute):
     return xsdattr
 
 
+def embedded_simpleType(_type):
+    restriction = xsdspec.Restriction(base=get_xsd_type(_type))
+    add_facets(restriction, _type, _type.__class__())
+    return xsdspec.SimpleType(restriction=restriction)
+
+
 def create_xsd_element(element):
     xsd_element = xsdspec.Element()
     xsd_element.name = element.tagname if element.tagname else element._name
@@ -79,11 +85,7 @@ def create_xsd_element(element):
     _type = element._type
 
     if not inspect.isclass(element._passed_type):
-        xsd_element.simpleType = xsdspec.SimpleType()
-        xsd_element.simpleType.restriction = xsdspec.Restriction()
-        xsd_element.simpleType.restriction.base = get_xsd_type(element._type)
-
-        add_facets(xsd_element.simpleType.restriction, _type, _type.__class__())
+        xsd_element.simpleType = embedded_simpleType(_type)
     else:
         xsd_element.type = get_xsd_type(element._type)
     return xsd_element
@@ -182,6 +184,8 @@ def generate_elements(xsd_schema, schema):
 
         if isinstance(element._passed_type, str) or inspect.isclass(element._passed_type):
             xsd_element.type = get_xsd_type(element._type)
+        elif isinstance(element._type, xsd.SimpleType):
+            xsd_element.simpleType = embedded_simpleType(element._type)
         else:
             xsd_element.complexType = xsd_complexType(element._type.__class__, named=False)
 
-- 
2.43.0


From 051365ffefa38f1b71bbeceef4b8a6e95c2883fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 056/100] fix: keep facets of attributes whose type is
 restricted in place in generated XSDs

---
 soapfish/py2xsd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 2b85b75..c9f434c 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -63,7 +63,10 @@ def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
     xsdattr.name = attribute.tagname or attribute._name
     xsdattr.use = attribute.use
-    xsdattr.type = get_xsd_type(attribute._type)
+    if isinstance(attribute._passed_type, xsd.Type):
+        xsdattr.simpleType = embedded_simpleType(attribute._type)
+    else:
+        xsdattr.type = get_xsd_type(attribute._type)
     return xsdattr
 
 
-- 
2.43.0


From 059ecaab6d9d82a6c825464706ba3232e37e3579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 057/100] fix: render element and attribute names which are not
 ASCII

---
 soapfish/xsd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 9ea98c2..9df23e1 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1096,7 +1096,8 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         self.render(xmlelement, self, namespace, elementFormDefault)
         if schema is not None:
             schema.assertValid(xmlelement)
-        return etree.tostring(xmlelement, pretty_print=pretty_print)
+        # The default encoding (ASCII) does not work for the names of elements and attributes.
+        return etree.tostring(xmlelement, pretty_print=pretty_print, encoding='utf-8')
 
     @classmethod
     def _force_elements_type_evalution(cls):
-- 
2.43.0


From 84b323e127bb0f92c82f7d6dccba726b37de709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 058/100] fix: render a choice with a list which is not the
 chosen alternative

---
 soapfish/xsd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 9df23e1..999f6a5 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -999,10 +999,13 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         if self.SCHEMA:
             namespace = self.SCHEMA.targetNamespace
         for field in instance._meta.all:
+            value = getattr(instance, field._name)
+            if instance.INDICATOR is Choice and isinstance(field, ListElement) and not value:
+                continue  # It is not the chosen alternative.
             field.render(
                 parent=parent,
                 field_name=field.tagname or field._name,
-                value=getattr(instance, field._name),
+                value=value,
                 namespace=namespace,
                 elementFormDefault=elementFormDefault)
 
-- 
2.43.0


From 692a342c6a37a2e2908c28197f9ecd565ae64939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 059/100] fix: refuse exponents in the text of decimals

---
 soapfish/xsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 999f6a5..8f6ea7a 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -361,7 +361,7 @@ class Time(SimpleType):
 
 
 class Decimal(SimpleType):
-    LEXICAL_REGEX = re.compile(r'[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?')
+    LEXICAL_REGEX = re.compile(r'[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)')
 
     # To be defined in children.
     enumeration = None
@@ -472,7 +472,7 @@ class Decimal(SimpleType):
 class FloatingPoint:
     """Lexical representation shared by xsd:double and xsd:float."""
 
-    LEXICAL_REGEX = re.compile(Decimal.LEXICAL_REGEX.pattern + r'|[-+]?INF|NaN')
+    LEXICAL_REGEX = re.compile(Decimal.LEXICAL_REGEX.pattern + r'([eE][-+]?[0-9]+)?|[-+]?INF|NaN')
 
     def _check_finite(self, value):
         pass
-- 
2.43.0


From 52a4e9d93db7c86df3916b39879a8c5d19ed6037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 060/100] fix: only XML whitespace is whitespace, only ASCII
 digits are digits

---
 soapfish/xsd.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 8f6ea7a..42e19ba 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -47,6 +47,7 @@ logger = logging.getLogger(__name__)
 
 NIL = object()
 UNBOUNDED = decimal.Decimal('infinity')
+WHITESPACE = ' \t\r\n'  # Other characters are not whitespace in XML.
 
 
 class CallStyle(str, enum.Enum):
@@ -190,10 +191,10 @@ class String(SimpleType):
             pass
         elif self.whiteSpace == 'replace':
             # replace line feeds, tabs, spaces, and carriage returns with whitespaces
-            value = re.sub(r'[\t\r\n\s]', ' ', value)
+            value = re.sub(r'[\t\r\n]', ' ', value)
         elif self.whiteSpace == 'collapse':
             # clean line feeds, tabs, spaces, and carriage returns with one whitespace
-            value = re.sub(r'[\t\r\n\s]+', ' ', value).strip(' ')
+            value = re.sub(r'[ \t\r\n]+', ' ', value).strip(' ')
 
         return value
 
@@ -219,7 +220,7 @@ class Boolean(SimpleType):
 
     def pythonvalue(self, value):
         if isinstance(value, str):
-            value = value.strip()
+            value = value.strip(WHITESPACE)
         if value in ('false', '0'):
             return False
         elif value in ('true', '1'):
@@ -238,7 +239,7 @@ class Date(SimpleType):
 
     YEAR_MONTH_DAY_REGEX = re.compile(r'''
         ^(?P<sign>\-)?
-        (?P<year>\d{4,})\-(?P<month>\d{2})\-(?P<day>\d{2})
+        (?P<year>[0-9]{4,})\-(?P<month>[0-9]{2})\-(?P<day>[0-9]{2})
         (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2}):?(?P<tz_minute>[0-5][0-9])?))?$''', re.VERBOSE)
 
     def accept(self, value):
@@ -266,7 +267,7 @@ class Date(SimpleType):
         if not isinstance(value, str):
             raise ValueError(f'Expected a string, not {value!r}')
 
-        match = self.YEAR_MONTH_DAY_REGEX.match(value.strip())
+        match = self.YEAR_MONTH_DAY_REGEX.match(value.strip(WHITESPACE))
         if match is None or match.group('sign'):
             raise ValueError(f'Unable to parse date string {value!r}')
         year = int(match.group('year'))
@@ -316,9 +317,9 @@ class DateTime(SimpleType):
         return None if value is None or value == 'nil' else self._parse(value)
 
     def _parse(self, value):
-        if not self.LEXICAL_REGEX.fullmatch(value.strip()):
+        if not self.LEXICAL_REGEX.fullmatch(value.strip(WHITESPACE)):
             raise ValueError(f'Unable to parse datetime string {value!r}')
-        return iso8601.parse_date(value.strip())
+        return iso8601.parse_date(value.strip(WHITESPACE))
 
 
 class Time(SimpleType):
@@ -349,11 +350,11 @@ class Time(SimpleType):
 
     @staticmethod
     def _parse(value):
-        if not re.fullmatch(r'\d{2}:\d{2}:\d{2}(\.\d+)?(Z|[-+]\d{2}(:?[0-5]\d)?)?', value.strip(), re.ASCII):
+        if not re.fullmatch(r'\d{2}:\d{2}:\d{2}(\.\d+)?(Z|[-+]\d{2}(:?[0-5]\d)?)?', value.strip(WHITESPACE), re.ASCII):
             raise ValueError(f'Unable to parse time string {value!r}')
         # Horrible hacky approach to implement this quickly:
         try:
-            dt = iso8601.parse_date('1900-01-01T' + value.strip())
+            dt = iso8601.parse_date('1900-01-01T' + value.strip(WHITESPACE))
         except Exception as e:
             raise ValueError(str(e)) from e
         else:
@@ -442,7 +443,7 @@ class Decimal(SimpleType):
         elif isinstance(value, (decimal.Decimal, float, int)):
             pass  # value is just value
         elif isinstance(value, str):
-            if not self.LEXICAL_REGEX.fullmatch(value.strip()):
+            if not self.LEXICAL_REGEX.fullmatch(value.strip(WHITESPACE)):
                 raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
             value = float(value)
         else:
@@ -527,7 +528,7 @@ class Integer(Decimal):
         elif isinstance(value, int):
             value = int(value)
         elif isinstance(value, str):
-            if not re.fullmatch(r'[-+]?[0-9]+', value.strip()):
+            if not re.fullmatch(r'[-+]?[0-9]+', value.strip(WHITESPACE)):
                 raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
             value = int(value)
         else:
@@ -610,7 +611,7 @@ def import_type(type_name):
 
 
 def is_nil(xmlelement):
-    return xmlelement.get(f'{{{ns.xsi}}}nil', '').strip() in ('true', '1')
+    return xmlelement.get(f'{{{ns.xsi}}}nil', '').strip(WHITESPACE) in ('true', '1')
 
 
 class Element:
-- 
2.43.0


From e13d4d2a6985fa9d4348f12e473363622d9298bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 061/100] fix: lists without minOccurs may be empty in
 generated XSDs

---
 soapfish/py2xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index c9f434c..2e3bf3e 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -80,7 +80,7 @@ def create_xsd_element(element):
     xsd_element = xsdspec.Element()
     xsd_element.name = element.tagname if element.tagname else element._name
     xsd_element.nillable = element.nillable
-    xsd_element.minOccurs = element._minOccurs
+    xsd_element.minOccurs = element._minOccurs or 0  # Lists have no minimum by default.
     if hasattr(element, '_maxOccurs'):
         xsd_element.maxOccurs = xsd.UNBOUNDED if element._maxOccurs is None else element._maxOccurs
 
-- 
2.43.0


From 98410e0069fc0b2a55837f13d3fc81bcf12be0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:25 +0000
Subject: [PATCH 062/100] fix: types of the attributes of anonymous types in
 generated XSDs

---
 soapfish/py2xsd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 2e3bf3e..b03d544 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -60,6 +60,7 @@ def add_facets(restriction, _type, base):
 
 
 def xsd_attribute(attribute):
+    attribute._evaluate_type()
     xsdattr = xsdspec.Attribute()
     xsdattr.name = attribute.tagname or attribute._name
     xsdattr.use = attribute.use
-- 
2.43.0


From 6fb5ae9edf4d3251bf46b9ca75f0ececdf5e8c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 063/100] fix: Refuse dates with a colon but no minutes in the
 time zone.

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 42e19ba..4429328 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -240,7 +240,7 @@ class Date(SimpleType):
     YEAR_MONTH_DAY_REGEX = re.compile(r'''
         ^(?P<sign>\-)?
         (?P<year>[0-9]{4,})\-(?P<month>[0-9]{2})\-(?P<day>[0-9]{2})
-        (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2}):?(?P<tz_minute>[0-5][0-9])?))?$''', re.VERBOSE)
+        (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2})(:?(?P<tz_minute>[0-5][0-9]))?))?$''', re.VERBOSE)
 
     def accept(self, value):
         if value is None:
-- 
2.43.0


From 3a1b28eb54cc0cf161f1ac7fbc38ab74be230d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 064/100] fix: send a fault if a message is nested too deeply
 to be parsed

---
 soapfish/soap_dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index e485130..3781560 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -175,7 +175,7 @@ class SOAPDispatcher:
         try:
             request.soap_header = self._parse_header(request.method, soap_header)
             request.soap_body = self._parse_input(request.method, soap_body)
-        except ValueError as e:
+        except (ValueError, RecursionError) as e:
             raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
 
     def dispatch(self, request):
-- 
2.43.0


From a817dbc697b40431aa3dbd89c83032f31c7ba240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 065/100] fix: fill scheme and host into the locations of the
 WSDL only, whatever its encoding

---
 soapfish/soap_dispatch.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 3781560..73e3828 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -231,9 +231,12 @@ class SOAPDispatcher:
         wsdl = self.wsdl
         if scheme and host:
             context = {'scheme': replace_invalid_characters(scheme), 'host': replace_invalid_characters(host)}
-            quoted = lambda match: escape(context[match.group(1) or match.group(2)], {'"': '&quot;'})
-            # Not a string.Template because that also replaces '$$' anywhere in the document.
-            wsdl = re.sub(r'\$(?:(scheme|host)\b|\{(scheme|host)\})', quoted, wsdl.decode()).encode()
+            context = {k: escape(v, {'"': '&quot;', "'": '&apos;'}).encode('ascii', 'xmlcharrefreplace') for k, v in context.items()}
+            value = lambda match: context[(match.group(1) or match.group(2)).decode()]
+            # Only locations are templates, not any other text which happens to look like one.
+            location = lambda match: re.sub(rb'\$(?:(scheme|host)\b|\{(scheme|host)\})', value, match.group())
+            wsdl = wsdl.encode() if isinstance(wsdl, str) else wsdl
+            wsdl = re.sub(rb'[lL]ocation\s*=\s*("[^"]*"|\'[^\']*\')', location, wsdl)
         response = SOAPResponse('wsdl', http_content=wsdl, http_headers={'Content-Type': 'text/xml'})
         return self._call_hook('wsdl-response', dispatcher=self, request=request, response=response)
 
-- 
2.43.0


From 1838e985cc2486cd07e566556d4fbd492cae3b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 066/100] fix: refer to the types of the right schema in the
 WSDL of services with several schemas

---
 soapfish/py2wsdl.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 9264d19..7e4acdd 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -8,7 +8,7 @@ from importlib.machinery import SourceFileLoader
 from lxml import etree
 
 from . import namespaces as ns, xsd
-from .py2xsd import generate_xsd, generate_xsdspec
+from .py2xsd import generate_xsdspec
 from .soap import SOAP_HTTP_Transport
 from .utils import uncapitalize
 from .wsdl import get_wsdl_classes
@@ -127,8 +127,11 @@ def generate_wsdl(service):
 
     # Schemas refer to their own types with 'sns' which is only correct for the first one.
     schemas = xmlelement.findall('{%s}types/{%s}schema' % (ns.wsdl, ns.xsd))
-    for schema, element in list(zip(service.schemas, schemas))[1:]:
-        element.getparent().replace(element, generate_xsd(schema))
+    for n, schema in enumerate(schemas[1:], 1):
+        for element in schema.iter():
+            for name in ('base', 'ref', 'substitutionGroup', 'type'):
+                if element.get(name, '').startswith('sns:'):
+                    element.set(name, element.get(name).replace('sns', f'sns{n}', 1))
 
     return xmlelement
 
-- 
2.43.0


From fd362a9153bfc13c662154b9eaf408e8cfe1b241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 067/100] fix: do not change the dictionary of headers given to
 a response

---
 soapfish/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/core.py b/soapfish/core.py
index 9e1e6be..72ca0ad 100644
--- a/soapfish/core.py
+++ b/soapfish/core.py
@@ -19,7 +19,7 @@ class SOAPResponse:
         self.soap_header = soap_header
         self.soap_body = soap_body
         self.http_status_code = http_status_code
-        self.http_headers = {} if http_headers is None else http_headers
+        self.http_headers = dict(http_headers or {})
         self.http_content = http_content
 
     @property
-- 
2.43.0


From cdc20f5f7ff526a14e4782ad32f90b28532b8ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 068/100] fix: do not mix up the validation errors of
 concurrent requests

---
 soapfish/py2xsd.py        |  5 +++--
 soapfish/soap_dispatch.py |  2 +-
 soapfish/utils.py         | 14 ++++++++++++++
 soapfish/wsa.py           |  2 ++
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index b03d544..fc0c8d4 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -9,7 +9,7 @@ from importlib.machinery import SourceFileLoader
 from lxml import etree
 
 from . import namespaces as ns, xsd, xsdspec
-from .utils import uncapitalize, walk_schema_tree
+from .utils import synchronized, uncapitalize, walk_schema_tree
 
 NUMERIC_TYPES = [
     xsd.Decimal, xsd.Integer, xsd.Int, xsd.Long, xsd.Short, xsd.UnsignedByte, xsd.UnsignedInt, xsd.UnsignedLong,
@@ -279,7 +279,8 @@ def schema_validator(schemas):
         schema_xml = etree.tostring(combine_schemas(schemas, resolver.lookup))
     schema_element = etree.fromstring(schema_xml, parser)
     xml_schema = etree.XMLSchema(schema_element)
-    return xml_schema.assertValid
+    # The error log of the schema is shared by all threads.
+    return synchronized(xml_schema.assertValid)
 
 
 # --- Program -----------------------------------------------------------------
diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 73e3828..f6ddcfd 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -144,7 +144,7 @@ class SOAPDispatcher:
         for children in soap_header._xmlelement.iterchildren('*'):
             namespace = children.nsmap.get(children.prefix)
             if namespace == wsa.NAMESPACE:
-                wsa.XML_SCHEMA.assertValid(children)
+                wsa.assert_valid(children)
             else:
                 try:
                     self.schema_validator(children)
diff --git a/soapfish/utils.py b/soapfish/utils.py
index ef442a0..329f933 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -1,9 +1,11 @@
+import functools
 import hashlib
 import itertools
 import keyword
 import logging
 import os
 import re
+import threading
 import unicodedata
 from datetime import datetime, timedelta, timezone
 from urllib.parse import urljoin, urlparse, urlunparse
@@ -236,6 +238,18 @@ def walk_schema_tree(schemas, callback, seen=None):
     return seen
 
 
+def synchronized(func):
+    """Let only one thread at a time call a function."""
+    lock = threading.Lock()
+
+    @functools.wraps(func)
+    def wrapper(*args, **kwargs):
+        with lock:
+            return func(*args, **kwargs)
+
+    return wrapper
+
+
 def replace_invalid_characters(text):
     """Replace characters which are not allowed in XML documents."""
     if not isinstance(text, str):
diff --git a/soapfish/wsa.py b/soapfish/wsa.py
index 80eca05..fee05f8 100644
--- a/soapfish/wsa.py
+++ b/soapfish/wsa.py
@@ -4,6 +4,7 @@ import uuid
 from lxml import etree
 
 from . import namespaces as ns, xsd
+from .utils import synchronized
 
 NAMESPACE = ns.wsa
 ANONYMOUS = 'http://www.w3.org/2005/08/addressing/anonymous'
@@ -33,6 +34,7 @@ SCHEMA = xsd.Schema(
 )
 XSD_SCHEMA = etree.parse(SCHEMA_IMPORT_PATH)
 XML_SCHEMA = etree.XMLSchema(XSD_SCHEMA)
+assert_valid = synchronized(XML_SCHEMA.assertValid)  # The error log is shared by all threads.
 
 
 def fill_header(dst_header, src_header=None):
-- 
2.43.0


From 7c50b4c991cbe1e2bb49639e377849945be43420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 069/100] fix: allow threads to evaluate the type of an element
 at the same time

---
 soapfish/xsd.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 4429328..8606a24 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -652,12 +652,11 @@ class Element:
 
     def _evaluate_type(self):
         if self._type is None:
-            if isinstance(self._passed_type, str):
-                self._passed_type = import_type(self._passed_type)
-            if isinstance(self._passed_type, Type):
-                self._type = self._passed_type
-            else:
-                self._type = self._passed_type()
+            # Other threads might evaluate the type at the same time.
+            passed_type = self._passed_type
+            if isinstance(passed_type, str):
+                self._passed_type = passed_type = import_type(passed_type)
+            self._type = passed_type if isinstance(passed_type, Type) else passed_type()
 
     def empty_value(self):
         """
-- 
2.43.0


From eaccc26a3636f0ecedcb02c5d7348c096ce764d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 070/100] fix: parse documents with a schema which imports or
 includes other ones

---
 soapfish/py2xsd.py | 12 ++++++++----
 soapfish/xsd.py    |  4 ++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index fc0c8d4..bbaf5f0 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -236,9 +236,9 @@ def combine_schemas(schemas, lookup):
     return combined
 
 
-def schema_validator(schemas):
+def compile_schemas(schemas):
     """
-    Return a callable for the specified soapfish schemas which can be used to validate (etree) xml documents.
+    Return a (etree) XML schema for the specified soapfish schemas.
 
     The method takes care of resolving imported (soapfish) schemas but prevents any unwanted network access.
     """
@@ -278,9 +278,13 @@ def schema_validator(schemas):
     else:
         schema_xml = etree.tostring(combine_schemas(schemas, resolver.lookup))
     schema_element = etree.fromstring(schema_xml, parser)
-    xml_schema = etree.XMLSchema(schema_element)
+    return etree.XMLSchema(schema_element)
+
+
+def schema_validator(schemas):
+    """Return a callable for the specified soapfish schemas which can be used to validate (etree) xml documents."""
     # The error log of the schema is shared by all threads.
-    return synchronized(xml_schema.assertValid)
+    return synchronized(compile_schemas(schemas).assertValid)
 
 
 # --- Program -----------------------------------------------------------------
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 8606a24..f641c8c 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1085,8 +1085,8 @@ class ComplexType(Type, metaclass=Complex_PythonType):
             parser = etree.fromstring
         else:
             if not isinstance(schema, etree.XMLSchema):
-                from .py2xsd import generate_xsd
-                schema = etree.XMLSchema(generate_xsd(schema))
+                from .py2xsd import compile_schemas
+                schema = compile_schemas([schema])
             xmlparser = etree.XMLParser(schema=schema)
             parser = functools.partial(etree.fromstring, parser=xmlparser)
         xmlelement = parser(xml)
-- 
2.43.0


From 796cde3e84527c2920596b8be0480b94b88a69bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 071/100] fix: validate documents after parsing, libxml2
 crashes for entities when it does both at once

---
 soapfish/xsd.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index f641c8c..2306804 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -40,7 +40,7 @@ import iso8601
 from lxml import etree
 
 from . import namespaces as ns
-from .utils import timezone_offset_to_string
+from .utils import synchronized, timezone_offset_to_string
 from .xsd_types import XSDDate
 
 logger = logging.getLogger(__name__)
@@ -49,6 +49,8 @@ NIL = object()
 UNBOUNDED = decimal.Decimal('infinity')
 WHITESPACE = ' \t\r\n'  # Other characters are not whitespace in XML.
 
+assert_valid = synchronized(etree.XMLSchema.assertValid)  # The error log is shared by all threads.
+
 
 class CallStyle(str, enum.Enum):
     DOCUMENT = 'document'
@@ -1081,15 +1083,17 @@ class ComplexType(Type, metaclass=Complex_PythonType):
 
     @classmethod
     def parsexml(cls, xml, schema=None):
-        if schema is None:
-            parser = etree.fromstring
-        else:
+        xmlelement = etree.fromstring(xml)
+        if schema is not None:
             if not isinstance(schema, etree.XMLSchema):
                 from .py2xsd import compile_schemas
                 schema = compile_schemas([schema])
-            xmlparser = etree.XMLParser(schema=schema)
-            parser = functools.partial(etree.fromstring, parser=xmlparser)
-        xmlelement = parser(xml)
+            # Not with etree.XMLParser(schema=schema): libxml2 crashes if such a document refers to an entity.
+            try:
+                assert_valid(schema, xmlelement)
+            except etree.DocumentInvalid as e:
+                error = e.error_log.last_error
+                raise etree.XMLSyntaxError(str(e), error.type, error.line, error.column) from e
         return cls.parse_xmlelement(xmlelement)
 
     def xml(self, tagname, namespace=None, elementFormDefault=None, schema=None, pretty_print=True):
-- 
2.43.0


From 3150f61e8c4324fcf23c7dfe1dfa1e96e4b40cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 072/100] fix: parse an empty choice within a choice

---
 soapfish/xsd.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 2306804..5527085 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1041,6 +1041,12 @@ class ComplexType(Type, metaclass=Complex_PythonType):
     def _find_subelement(cls, field, xmlelement):
         return [subelement for subelement in xmlelement if cls._is_matching_element(field, subelement)]
 
+    @classmethod
+    def _is_unwrapped_choice(cls, xmlelement):
+        # Elements without any content within other ones are choices of nothing.
+        return cls.INDICATOR == Choice and (len(xmlelement) > 0 or bool(xmlelement.text) or xmlelement.getparent() is None) \
+            and not any(cls._find_subelement(field, xmlelement) for field in cls._meta.fields)
+
     @classmethod
     def parse_xmlelement(cls, xmlelement):
         instance = cls()
@@ -1049,12 +1055,15 @@ class ComplexType(Type, metaclass=Complex_PythonType):
             attribute.parse(instance, attribute._name, xmlelement)
 
         # A choice is usually wrapped by its parent element but the element might also be the selected alternative.
-        is_choice = (instance._meta.cls.INDICATOR == Choice) \
-            and not any(cls._find_subelement(field, xmlelement) for field in instance._meta.fields)
+        is_choice = cls._is_unwrapped_choice(xmlelement)
         for field in instance._meta.fields:
             if is_choice:
                 if not cls._is_matching_element(field, xmlelement):
                     continue
+                field._evaluate_type()
+                if isinstance(field._type, ComplexType) and field._type._is_unwrapped_choice(xmlelement):
+                    # The same question again, without an end for a choice which contains itself.
+                    continue
                 subelements = [xmlelement]
             else:
                 subelements = cls._find_subelement(field, xmlelement)
-- 
2.43.0


From 8a3144010d3e95f4b2d1cebb80f19d7d31646901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:42 +0000
Subject: [PATCH 073/100] fix: wsdl2py --use-wsa turns on addressing for
 operations without headers

---
 soapfish/templates/wsdl.jinja2 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 6a76d34..25ed470 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -117,6 +117,9 @@ class {{ (_om.name ~ 'Headers')|identifier }}(BaseHeader):
     version=soap.SOAPVersion.SOAP12,
     {%- endif %}
     methods=[{% for o in binding.operations %}{{ (o.name ~ '_method')|identifier }}{% if not loop.last %}, {% endif %}{% endfor %}],
+    {%- if use_wsa %}
+    use_wsa=True,
+    {%- endif %}
 )
 {# [blank line] #}
 {# [blank line] #}
-- 
2.43.0


From 3c92d420a4e42e5951d1b583420e5bcaa3bcf2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 074/100] fix: Generate a valid XSD from code whose elements
 have a substitution group

---
 soapfish/py2xsd.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index bbaf5f0..c6f57a3 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -9,7 +9,7 @@ from importlib.machinery import SourceFileLoader
 from lxml import etree
 
 from . import namespaces as ns, xsd, xsdspec
-from .utils import synchronized, uncapitalize, walk_schema_tree
+from .utils import remove_namespace, synchronized, uncapitalize, walk_schema_tree
 
 NUMERIC_TYPES = [
     xsd.Decimal, xsd.Integer, xsd.Int, xsd.Long, xsd.Short, xsd.UnsignedByte, xsd.UnsignedInt, xsd.UnsignedLong,
@@ -183,8 +183,9 @@ def generate_elements(xsd_schema, schema):
 
         # TODO: Support non-string values for substitutionGroup:
         if element.substitutionGroup is not None:
-            value = element.substitutionGroup
-            xsd_element.substitutionGroup = value if value.startswith('sns:') else f'sns:{value}'
+            # Prefixes of the XSD the code was generated from are not known.
+            value = remove_namespace(element.substitutionGroup)
+            xsd_element.substitutionGroup = f'sns:{value}'
 
         if isinstance(element._passed_type, str) or inspect.isclass(element._passed_type):
             xsd_element.type = get_xsd_type(element._type)
-- 
2.43.0


From 38a3e09dc89d8c6bbaf1fe75f205d6fc63f9a099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 075/100] fix: Lists in generated code have the default minimum
 of XSD

---
 soapfish/templates/lib.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 043feb1..c14076e 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -134,7 +134,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {% macro render_xsd_element(element, known_types=None) -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
     {%- if element.type or element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ render_xsd_type(element, known_types) }}{% if element.name|fix_keyword != element.name or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|literal }}{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ render_xsd_type(element, known_types) }}{% if element.name|fix_keyword != element.name or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|literal }}{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% elif field_type == 'ListElement' %}, minOccurs=1{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ element|type(known_types) }})
-- 
2.43.0


From ed5c06137dcce29ced214bfb7f3376f4175a2d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 076/100] fix: keep addresses which are already templates in
 generated code

---
 soapfish/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 329f933..d4f19ff 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -119,7 +119,8 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
             raise ValueError(f'Unknown URL component: {item}') from e
 
     def url_template(url):
-        o = list(urlparse(url))
+        # The address may already be a template.
+        o = list(urlparse(url.replace('${scheme}://', 'http://', 1)))
         o[0:2] = ['${scheme}', '${host}']
         return urlunparse(o)
 
-- 
2.43.0


From 6b548001b09356e21bc276a70fec357ff725c28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 077/100] fix: refer to elements of imported schemas by their
 namespace in generated WSDL

---
 soapfish/py2wsdl.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 7e4acdd..69d9edb 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -86,13 +86,30 @@ def build_messages(wsdl, definitions, service):
         definitions.messages.append(outputMessage)
 
 
+def get_namespaces(service):
+    """Return the namespaces by prefix for the types and elements of a service."""
+    namespaces = [schema.targetNamespace for schema in service.schemas]
+    for method in service.methods:
+        for name in (method.input, method.output):
+            element = get_element(service, name) if isinstance(name, str) else None
+            # Elements might be declared by an imported schema.
+            if element is not None and element.namespace and element.namespace not in namespaces:
+                namespaces.append(element.namespace)
+    return {f'sns{n or ""}': namespace for n, namespace in enumerate(namespaces)}
+
+
+def get_element(service, name):
+    elements = [(schema, schema.get_element_by_name(name)) for schema in service.schemas]
+    elements = [(schema, element) for schema, element in elements if element is not None]
+    own = [element for schema, element in elements if element.namespace == schema.targetNamespace]
+    return next(iter(own + [element for _, element in elements]), None)
+
+
 def get_prefix(service, name):
-    """Return the prefix for the namespace of an element, see nsmap in generate_wsdl()."""
-    for n, schema in enumerate(service.schemas):
-        element = schema.get_element_by_name(name)
-        if element is not None and element.namespace == schema.targetNamespace:
-            return f'sns{n or ""}'
-    return 'sns'
+    """Return the prefix for the namespace of an element."""
+    element = get_element(service, name)
+    namespaces = get_namespaces(service)
+    return next((prefix for prefix in namespaces if element is not None and namespaces[prefix] == element.namespace), 'sns')
 
 
 def build_types(wsdl, definitions, service):
@@ -112,7 +129,7 @@ def generate_wsdl(service):
     xmlelement = etree.Element(
         '{%s}definitions' % ns.wsdl,
         nsmap={
-            **{f'sns{n or ""}': schema.targetNamespace for n, schema in enumerate(service.schemas)},
+            **get_namespaces(service),
             'soap': service.version.BINDING_NAMESPACE,
             'tns': service.targetNamespace,
             'wsdl': ns.wsdl,
-- 
2.43.0


From 49db7ed792e990122258c5909fb6aa58f801c370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 078/100] fix: give schemas of a WSDL with the same namespace
 different names in generated code

---
 soapfish/templates/lib.jinja2 |  8 ++++----
 soapfish/wsdl2py.py           |  1 +
 soapfish/xsd2py.py            | 16 ++++++++++++++--
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index c14076e..15a59f3 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -11,8 +11,8 @@
 {%- endif -%}
 {%- endmacro %}
 
-{% macro render_Schema(schema, location, references, known_types=None) -%}
-Schema_{{ schema_name(schema) }} = xsd.Schema(
+{% macro render_Schema(schema, names, location, references, known_types=None) -%}
+Schema_{{ names[0] }} = xsd.Schema(
     imports=[{% for i in references.imports %}Schema_{{ i }}{% if not loop.last %}, {% endif %}{% endfor %}],
     includes=[{% for i in references.includes %}Schema_{{ i }}{% if not loop.last %}, {% endif %}{% endfor %}],
     targetNamespace={{ schema.targetNamespace|literal }},
@@ -25,10 +25,10 @@ Schema_{{ schema_name(schema) }} = xsd.Schema(
     complexTypes=[{% for ct in schema.complexTypes %}{{ ct.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     elements={{ '{' }}{% for e in schema.elements %}{{ e.name|literal }}: xsd.Element({% if e.type or e.simpleType %}{{ render_xsd_type(e, known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup={{ e.substitutionGroup|literal }}{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
 )
-{%- if location %}
+{%- if names[1:] %}
 {# [blank line] #}
 # XXX: Workaround for naming issues related to relative locations!
-Schema_{{ schema_name(schema, location) }} = Schema_{{ schema_name(schema) }}
+Schema_{{ names[1] }} = Schema_{{ names[0] }}
 {%- endif %}
 {# [blank line] #}
 {# [blank line] #}
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 1f863a1..1a70653 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -102,6 +102,7 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     schemas = ''.join(schema_to_py(schema, xsd_namespaces, **kw) for schema in schemas) + collection.render()
 
     env = get_rendering_environment(xsd_namespaces, module='soapfish.wsdl2py')
+    env.globals.update(schema_name=collection.get_name)
     tpl = env.get_template('wsdl.jinja2')
 
     code = tpl.render(
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index a87a728..3c79694 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -46,11 +46,20 @@ class SchemaCollection:
 
     def __init__(self):
         self._names = set()
+        self._main = {}
         self._code = []
         self._pending = []
 
+    def get_name(self, schema):
+        return self._main.get(id(schema)) or schema_name(schema)
+
     def add(self, schema, location, known_types, render):
         name = schema_name(schema, location)
+        if not location:
+            # Several schemas of a WSDL might have the same namespace.
+            while name in self._main.values():
+                name += '_'
+            self._main[id(schema)] = name
         references = {}
         for attr in ('imports', 'includes'):
             references[attr] = []
@@ -64,8 +73,11 @@ class SchemaCollection:
                     references[attr].append(reference)
                 else:
                     self._pending.append((name, attr, reference, namespace and schema_name(i, namespace)))
-        self._code.append(render(schema, location, references, known_types))
-        self._names.update({name, schema_name(schema)})
+        names = [name]
+        if location and schema_name(schema) not in self._main.values():
+            names.insert(0, schema_name(schema))
+        self._code.append(render(schema, names, location, references, known_types))
+        self._names.update(names)
 
     def render(self):
         code = list(self._code)
-- 
2.43.0


From a2cd341518402bdea9dbe20dc2214a5c4e051d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 079/100] fix: resolve prefixes of each schema of a WSDL on
 their own

---
 soapfish/utils.py   |  2 +-
 soapfish/wsdl2py.py | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index d4f19ff..bb71521 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -223,7 +223,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
 # --- Other Functions ---------------------------------------------------------
 def find_xsd_namespaces(xml):
     nsmap = xml.nsmap.copy()
-    for x in xml.xpath('//*[local-name()="schema"]'):
+    for x in xml.xpath('.//*[local-name()="schema"]'):
         nsmap.update(x.nsmap)
     return {k for k, v in nsmap.items() if v in (ns.xsd, ns.xsd2000)}
 
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 1a70653..829b609 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -32,6 +32,12 @@ def reorder_schemas(schemas):
     return schemas
 
 
+def find_schema_namespaces(xml, definitions):
+    """Return pairs of an embedded schema and the prefixes which mean XSD in it."""
+    schemas = xml.xpath('./*[local-name()="types"]/*[local-name()="schema"]')
+    return zip(definitions.types.schemas if definitions.types else [], map(find_xsd_namespaces, schemas))
+
+
 def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, base_path=None):
 
     def deduplicate(seq):
@@ -55,9 +61,8 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, base_p
         xml = open_document(path)
         xml = etree.fromstring(xml)
 
-        xsd_namespaces.update(find_xsd_namespaces(xml))
-
         imported = wsdl.Definitions.parse_xmlelement(xml)
+        xsd_namespaces.extend(find_schema_namespaces(xml, imported))
 
         # Schemas will be resolved relative to the main document.
         for schema in (imported.types.schemas if imported.types else []):
@@ -85,13 +90,12 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     if cwd is None:
         cwd = os.getcwd()
 
-    xsd_namespaces = find_xsd_namespaces(xml)
-
     soap_version = SOAPVersion.get_version_from_xml(xml)
     logger.info('Detected version of SOAP: %s', soap_version.NAME)
 
     wsdl = get_wsdl_classes(soap_version.BINDING_NAMESPACE)
     definitions = wsdl.Definitions.parse_xmlelement(xml)
+    xsd_namespaces = list(find_schema_namespaces(xml, definitions))
     merge_imports(wsdl, definitions, xsd_namespaces, cwd=cwd)
 
     # Files imported by several schemas must be processed only once.
@@ -99,9 +103,11 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace, 'known_schemas': collection,
           'known_paths': [], 'known_types': []}
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
-    schemas = ''.join(schema_to_py(schema, xsd_namespaces, **kw) for schema in schemas) + collection.render()
+    # The same prefix may have different meanings.
+    prefixes = {id(schema): x for schema, x in xsd_namespaces}
+    schemas = ''.join(schema_to_py(schema, prefixes[id(schema)], **kw) for schema in schemas) + collection.render()
 
-    env = get_rendering_environment(xsd_namespaces, module='soapfish.wsdl2py')
+    env = get_rendering_environment(find_xsd_namespaces(xml), module='soapfish.wsdl2py')
     env.globals.update(schema_name=collection.get_name)
     tpl = env.get_template('wsdl.jinja2')
 
-- 
2.43.0


From d0ffdcfa4b17081314165980f6c1fa3c7bc5f236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 080/100] fix: detect SOAP 1.2 if the binding is part of an
 imported WSDL

---
 soapfish/wsdl2py.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 829b609..915257a 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -8,6 +8,7 @@ import sys
 
 from lxml import etree
 
+from . import namespaces as ns
 from .soap import SOAPVersion
 from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
 from .wsdl import get_wsdl_classes
@@ -22,8 +23,8 @@ def reorder_schemas(schemas):
     while x and counter > 0:
         counter -= 1
         schema = x.popleft()
-        ns = {i.namespace for i in schema.imports}
-        if x and ns and ns - targets:
+        namespaces = {i.namespace for i in schema.imports}
+        if x and namespaces and namespaces - targets:
             x.append(schema)
         else:
             schemas.append(schema)
@@ -38,6 +39,23 @@ def find_schema_namespaces(xml, definitions):
     return zip(definitions.types.schemas if definitions.types else [], map(find_xsd_namespaces, schemas))
 
 
+def get_soap_version(xml, cwd, seen=None):
+    """Return the version of SOAP of the bindings, which might be part of an imported document."""
+    version = SOAPVersion.get_version_from_xml(xml)
+    if xml.find(f'{{{ns.wsdl}}}binding') is not None:
+        return version
+    seen = set() if seen is None else seen
+    for i in xml.findall(f'{{{ns.wsdl}}}import'):
+        path, import_cwd, _ = resolve_location(i.get('location'), cwd)
+        if path in seen:
+            continue
+        seen.add(path)
+        imported = get_soap_version(etree.fromstring(open_document(path)), import_cwd, seen)
+        if imported is not version:
+            return imported
+    return version
+
+
 def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, base_path=None):
 
     def deduplicate(seq):
@@ -90,7 +108,7 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     if cwd is None:
         cwd = os.getcwd()
 
-    soap_version = SOAPVersion.get_version_from_xml(xml)
+    soap_version = get_soap_version(xml, cwd)
     logger.info('Detected version of SOAP: %s', soap_version.NAME)
 
     wsdl = get_wsdl_classes(soap_version.BINDING_NAMESPACE)
-- 
2.43.0


From 2c2bb183e7d9af72a22a6537e8e5967fb1cbc6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 081/100] fix: generate valid code for messages named like an
 argument

---
 soapfish/templates/wsdl.jinja2 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 25ed470..8c8a209 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -28,7 +28,7 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {# [blank line] #}
-def {{ operation.name|identifier }}(request, {{ _im.part.element|remove_namespace|identifier }}):
+def {{ operation.name|identifier }}(request, {{ _im.part.element|remove_namespace|identifier(['request']) }}):
     # TODO: Put your implementation here.
     return {{ _om.part.element|remove_namespace|identifier }}
 {# [blank line] #}
@@ -147,8 +147,8 @@ class {{ (port.name ~ 'ServiceStub')|identifier }}(soap.Stub):
     HOST = {{ port.address.location|url_component('netloc')|literal }}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
-    def {{ operation.name|identifier }}(self, {{ _im.part.element|remove_namespace|identifier }}, header=None):
-        return self.call({{ operation.name|literal }}, {{ _im.part.element|remove_namespace|identifier }}, header=header)
+    def {{ operation.name|identifier }}(self, {{ _im.part.element|remove_namespace|identifier(['self', 'header']) }}, header=None):
+        return self.call({{ operation.name|literal }}, {{ _im.part.element|remove_namespace|identifier(['self', 'header']) }}, header=header)
 {% endfor %}
 {%- endif %}
 {%- endfor %}{# ports #}
-- 
2.43.0


From cdbfd9a8bad3f24205fb127b1304a3e72889e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 082/100] fix: put the SOAP details of a binding before its
 operations as required by WSDL

---
 soapfish/wsdl11.py | 14 ++++++++------
 soapfish/wsdl12.py | 12 ++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/soapfish/wsdl11.py b/soapfish/wsdl11.py
index e4a54c3..fb3dfe1 100644
--- a/soapfish/wsdl11.py
+++ b/soapfish/wsdl11.py
@@ -123,14 +123,15 @@ class Fault(xsd.ComplexType):
 
 class Operation(xsd.ComplexType):
     name = xsd.Attribute(xsd.String)
-    input = xsd.Element(Input, minOccurs=0)
-    output = xsd.Element(Output, minOccurs=0)
-    faults = xsd.ListElement(Fault, 'fault', minOccurs=0)
     documentation = xsd.Element(xsd.String, minOccurs=0)
 
-    # Extensibility Elements:
+    # Extensibility Elements (before anything else):
     operation = xsd.Element(SOAP_Operation, minOccurs=0, namespace=ns.wsdl_soap)
 
+    input = xsd.Element(Input, minOccurs=0)
+    output = xsd.Element(Output, minOccurs=0)
+    faults = xsd.ListElement(Fault, 'fault', minOccurs=0)
+
 
 class PortType(xsd.ComplexType):
     name = xsd.Attribute(xsd.String)
@@ -141,12 +142,13 @@ class PortType(xsd.ComplexType):
 class Binding(xsd.ComplexType):
     name = xsd.Attribute(xsd.String)
     type = xsd.Attribute(xsd.String)
-    operations = xsd.ListElement(Operation, 'operation', minOccurs=0)
     documentation = xsd.Element(xsd.String, minOccurs=0)
 
-    # Extensibility Elements:
+    # Extensibility Elements (before anything else):
     binding = xsd.Element(SOAP_Binding, namespace=ns.wsdl_soap)
 
+    operations = xsd.ListElement(Operation, 'operation', minOccurs=0)
+
 
 class Port(xsd.ComplexType):
     name = xsd.Attribute(xsd.String)
diff --git a/soapfish/wsdl12.py b/soapfish/wsdl12.py
index 7d5ca44..34cca50 100644
--- a/soapfish/wsdl12.py
+++ b/soapfish/wsdl12.py
@@ -72,24 +72,24 @@ class Fault(wsdl11.Fault):
 
 
 class Operation(wsdl11.Operation):
+    # Extensibility Elements (before anything else):
+    operation = xsd.Element(SOAP_Operation, minOccurs=0, namespace=ns.wsdl_soap12)
+
     input = xsd.Element(Input, minOccurs=0)
     output = xsd.Element(Output, minOccurs=0)
     faults = xsd.ListElement(Fault, 'fault', minOccurs=0)
 
-    # Extensibility Elements:
-    operation = xsd.Element(SOAP_Operation, minOccurs=0, namespace=ns.wsdl_soap12)
-
 
 class PortType(wsdl11.PortType):
     operations = xsd.ListElement(Operation, 'operation', minOccurs=0)
 
 
 class Binding(wsdl11.Binding):
-    operations = xsd.ListElement(Operation, 'operation', minOccurs=0)
-
-    # Extensibility Elements:
+    # Extensibility Elements (before anything else):
     binding = xsd.Element(SOAP_Binding, namespace=ns.wsdl_soap12)
 
+    operations = xsd.ListElement(Operation, 'operation', minOccurs=0)
+
 
 class Port(wsdl11.Port):
     # Extensibility Elements:
-- 
2.43.0


From 08be6a2a551ef6b0816205546f5ce063530be15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 083/100] fix: functions for operations do not hide classes of
 the same name in generated code

---
 soapfish/templates/wsdl.jinja2 | 4 ++--
 soapfish/wsdl2py.py            | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 8c8a209..c0213f3 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -28,7 +28,7 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {# [blank line] #}
-def {{ operation.name|identifier }}(request, {{ _im.part.element|remove_namespace|identifier(['request']) }}):
+def {{ operation.name|identifier(classes) }}(request, {{ _im.part.element|remove_namespace|identifier(['request']) }}):
     # TODO: Put your implementation here.
     return {{ _om.part.element|remove_namespace|identifier }}
 {# [blank line] #}
@@ -69,7 +69,7 @@ class {{ (_om.name ~ 'Headers')|identifier }}(BaseHeader):
 {# [blank line] #}
 {%- endif %}
 {{ (operation.name ~ '_method')|identifier }} = xsd.Method(
-    {% if is_server %}function={{ operation.name|identifier }},
+    {% if is_server %}function={{ operation.name|identifier(classes) }},
     {% endif -%}
     soapAction={{ operation.operation.soapAction|literal }},
     {%- if _im.parts -%}
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 915257a..653302b 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -4,6 +4,7 @@ import argparse
 import collections
 import logging
 import os
+import re
 import sys
 
 from lxml import etree
@@ -126,7 +127,11 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     schemas = ''.join(schema_to_py(schema, prefixes[id(schema)], **kw) for schema in schemas) + collection.render()
 
     env = get_rendering_environment(find_xsd_namespaces(xml), module='soapfish.wsdl2py')
-    env.globals.update(schema_name=collection.get_name)
+    env.globals.update(
+        # Functions must not hide the classes of the same name.
+        classes=re.findall(r'^class (\w+)', schemas, re.MULTILINE),
+        schema_name=collection.get_name,
+    )
     tpl = env.get_template('wsdl.jinja2')
 
     code = tpl.render(
-- 
2.43.0


From 95a46a45962ba7c4b2b5cb2475ac59e36fbe785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 084/100] fix: py2wsdl and py2xsd accept modules which refer to
 types by name

---
 soapfish/py2wsdl.py | 2 +-
 soapfish/py2xsd.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 69d9edb..74cc929 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -170,7 +170,7 @@ def main(argv=None):
 
     logger.info('Generating WSDL for Python module: %s', opt.module)
 
-    module = SourceFileLoader('', opt.module).load_module()
+    module = SourceFileLoader('__soapfish__', opt.module).load_module()
     tree = generate_wsdl(module.SERVICE)
 
     opt.output.write(etree.tostring(tree, pretty_print=True))
diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index c6f57a3..e780fbd 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -304,7 +304,7 @@ def main(argv=None):
     opt = parser.parse_args(sys.argv[1:] if argv is None else argv)
 
     logger.info('Generating XSD for Python module: %s', opt.module)
-    module = SourceFileLoader('', opt.module).load_module()
+    module = SourceFileLoader('__soapfish__', opt.module).load_module()
     tree = generate_xsd(module.Schema)
 
     opt.output.write(etree.tostring(tree, pretty_print=True))
-- 
2.43.0


From 4b9d22bc8b08b05e50424bc3bcdde2e960238212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 085/100] fix: headers of a client can not replace missing
 variables of the server in Django

---
 soapfish/django_.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/django_.py b/soapfish/django_.py
index cbb7a36..22b45ad 100644
--- a/soapfish/django_.py
+++ b/soapfish/django_.py
@@ -10,7 +10,9 @@ class DjangoEnvironWrapper:
 
     def get(self, name, default=None):
         normalized_name = name.replace('-', '_').upper()
-        for key in (name, normalized_name, 'HTTP_' + normalized_name):
+        # What looks like a variable of the server must not be taken from a header of the client.
+        keys = (name,) if name == normalized_name else (name, normalized_name, 'HTTP_' + normalized_name)
+        for key in keys:
             if key in self.environ:
                 return self.environ[key]
         return default
-- 
2.43.0


From 6da5989f27d28dee7798bbbd2189c0c4ac66e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:45 +0000
Subject: [PATCH 086/100] fix: schemas whose namespaces or locations have the
 same short hash do not replace each other

---
 soapfish/xsd2py.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 3c79694..6cedfea 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -46,19 +46,28 @@ class SchemaCollection:
 
     def __init__(self):
         self._names = set()
+        self._values = {}
         self._main = {}
         self._code = []
         self._pending = []
 
+    def _name(self, value):
+        name = schema_name(None, value)
+        # The name is a short hash, different locations and namespaces might have the same one.
+        while self._values.setdefault(name, value) != value:
+            name += '_'
+        return name
+
     def get_name(self, schema):
-        return self._main.get(id(schema)) or schema_name(schema)
+        return self._main.get(id(schema)) or self._name(schema.targetNamespace)
 
     def add(self, schema, location, known_types, render):
-        name = schema_name(schema, location)
+        name = self._name(location or schema.targetNamespace)
         if not location:
             # Several schemas of a WSDL might have the same namespace.
             while name in self._main.values():
                 name += '_'
+            self._values.setdefault(name, id(schema))
             self._main[id(schema)] = name
         references = {}
         for attr in ('imports', 'includes'):
@@ -68,14 +77,14 @@ class SchemaCollection:
                 if not i.schemaLocation and not namespace:
                     continue
                 # Files are identified by their location and everything else by the namespace.
-                reference = schema_name(i, i.schemaLocation or namespace)
+                reference = self._name(i.schemaLocation or namespace)
                 if reference in self._names:
                     references[attr].append(reference)
                 else:
-                    self._pending.append((name, attr, reference, namespace and schema_name(i, namespace)))
+                    self._pending.append((name, attr, reference, namespace and self._name(namespace)))
         names = [name]
-        if location and schema_name(schema) not in self._main.values():
-            names.insert(0, schema_name(schema))
+        if location and self._name(schema.targetNamespace) not in self._main.values():
+            names.insert(0, self._name(schema.targetNamespace))
         self._code.append(render(schema, names, location, references, known_types))
         self._names.update(names)
 
-- 
2.43.0


From dc4748a09a358a6f0de70cd0f9084d6214f8f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:06 +0000
Subject: [PATCH 087/100] fix: parts of messages refer to types in the
 namespace of their schema

---
 soapfish/py2wsdl.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 74cc929..00e1b4b 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -72,7 +72,7 @@ def build_messages(wsdl, definitions, service):
         if isinstance(method.input, str):
             part.element = get_prefix(service, method.input) + ':' + method.input
         else:
-            part.type = 'sns:' + uncapitalize(method.input.__name__)
+            part.type = get_prefix(service, method.input) + ':' + uncapitalize(method.input.__name__)
         inputMessage.parts = [part]
         definitions.messages.append(inputMessage)
 
@@ -81,7 +81,7 @@ def build_messages(wsdl, definitions, service):
         if isinstance(method.output, str):
             part.element = get_prefix(service, method.output) + ':' + method.output
         else:
-            part.type = 'sns:' + uncapitalize(method.output.__name__)
+            part.type = get_prefix(service, method.output) + ':' + uncapitalize(method.output.__name__)
         outputMessage.parts = [part]
         definitions.messages.append(outputMessage)
 
@@ -90,11 +90,11 @@ def get_namespaces(service):
     """Return the namespaces by prefix for the types and elements of a service."""
     namespaces = [schema.targetNamespace for schema in service.schemas]
     for method in service.methods:
-        for name in (method.input, method.output):
-            element = get_element(service, name) if isinstance(name, str) else None
-            # Elements might be declared by an imported schema.
-            if element is not None and element.namespace and element.namespace not in namespaces:
-                namespaces.append(element.namespace)
+        for value in (method.input, method.output):
+            namespace = get_namespace(service, value)
+            # Types and elements might be declared by an imported schema.
+            if namespace and namespace not in namespaces:
+                namespaces.append(namespace)
     return {f'sns{n or ""}': namespace for n, namespace in enumerate(namespaces)}
 
 
@@ -105,11 +105,19 @@ def get_element(service, name):
     return next(iter(own + [element for _, element in elements]), None)
 
 
-def get_prefix(service, name):
-    """Return the prefix for the namespace of an element."""
-    element = get_element(service, name)
+def get_namespace(service, value):
+    """Return the namespace of the element or type of a message."""
+    if isinstance(value, str):
+        element = get_element(service, value)
+        return element.namespace if element is not None else None
+    return value.SCHEMA.targetNamespace if value.SCHEMA is not None else None
+
+
+def get_prefix(service, value):
+    """Return the prefix for the namespace of the element or type of a message."""
+    namespace = get_namespace(service, value)
     namespaces = get_namespaces(service)
-    return next((prefix for prefix in namespaces if element is not None and namespaces[prefix] == element.namespace), 'sns')
+    return next((prefix for prefix in namespaces if namespace is not None and namespaces[prefix] == namespace), 'sns')
 
 
 def build_types(wsdl, definitions, service):
-- 
2.43.0


From 62d39f3545373c77f5792d3cc138f51dd448da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 088/100] fix: fields can be named self

---
 soapfish/xsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 5527085..38ea18b 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -947,13 +947,13 @@ class ComplexType(Type, metaclass=Complex_PythonType):
     INHERITANCE = None    # Type of inheritance see: class Inheritance, to be defined in sub-type.
     SCHEMA = None
 
-    def __new__(cls, *args, **kwargs):
+    def __new__(cls, /, *args, **kwargs):
         instance = super().__new__(cls)
         for field in instance._meta.all:
             setattr(instance, field._name, field.empty_value())
         return instance
 
-    def __init__(self, **kwargs):
+    def __init__(self, /, **kwargs):
         for key, value in kwargs.items():
             setattr(self, key, value)
 
-- 
2.43.0


From 35724b143b45d1f2f4e2c7af04d6ebd879ec2903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:24 +0000
Subject: [PATCH 089/100] fix: generated classes have fields for all names of
 XML

---
 soapfish/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index bb71521..325d672 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -87,13 +87,16 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
 
     keywords = set(keyword.kwlist)
     # Names with a meaning in the generated classes.
-    reserved = {'cls', 'create', 'xsd'} | {x for x in dir(xsd.ComplexType) if not x.startswith('__')}
+    reserved = {'_xmlelement', 'cls', 'create', 'instance', 'xsd'} | {x for x in dir(xsd.ComplexType) if not x.startswith('__')}
 
     def identifier(value, reserved=()):
         # Names of XML may contain characters which are not allowed in names of Python.
         value = unicodedata.normalize('NFKC', str(value))
         value = ''.join(x if f'_{x}'.isidentifier() else '_' for x in value)
-        return value if value.isidentifier() and value not in keywords and value not in reserved else f'_{value}'
+        if value.isidentifier() and not value.startswith('__') and value not in keywords and value not in reserved:
+            return value
+        # Names with two leading underscores are special in classes.
+        return f'x{value}' if value.startswith('_') else f'_{value}'
 
     def capitalize(value):
         return identifier(value[0].upper() + value[1:])
-- 
2.43.0


From 55163479130d9a1308c9321996f5850b59f7e067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 090/100] fix: operations with names of the stub or of modules
 do not break the generated code

---
 soapfish/templates/wsdl.jinja2 | 2 +-
 soapfish/wsdl2py.py            | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index c0213f3..1296d79 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -147,7 +147,7 @@ class {{ (port.name ~ 'ServiceStub')|identifier }}(soap.Stub):
     HOST = {{ port.address.location|url_component('netloc')|literal }}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
-    def {{ operation.name|identifier }}(self, {{ _im.part.element|remove_namespace|identifier(['self', 'header']) }}, header=None):
+    def {{ operation.name|identifier(stub_names) }}(self, {{ _im.part.element|remove_namespace|identifier(['self', 'header']) }}, header=None):
         return self.call({{ operation.name|literal }}, {{ _im.part.element|remove_namespace|identifier(['self', 'header']) }}, header=header)
 {% endfor %}
 {%- endif %}
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 653302b..012d9e0 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -10,7 +10,7 @@ import sys
 from lxml import etree
 
 from . import namespaces as ns
-from .soap import SOAPVersion
+from .soap import SOAPVersion, Stub
 from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
 from .wsdl import get_wsdl_classes
 from .xsd2py import SchemaCollection, rewrite_paths, schema_to_py
@@ -128,8 +128,9 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
 
     env = get_rendering_environment(find_xsd_namespaces(xml), module='soapfish.wsdl2py')
     env.globals.update(
-        # Functions must not hide the classes of the same name.
-        classes=re.findall(r'^class (\w+)', schemas, re.MULTILINE),
+        # Functions must not hide the classes and modules of the same name.
+        classes=['BaseHeader', 'soap', 'wsa', 'xsd'] + re.findall(r'^class (\w+)', schemas, re.MULTILINE),
+        stub_names=['location', 'password', 'service', 'username'] + dir(Stub),
         schema_name=collection.get_name,
     )
     tpl = env.get_template('wsdl.jinja2')
-- 
2.43.0


From 5ac5b22c06b703ed7855a588b2c72aad05c055aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 091/100] fix: SOAP 1.2 takes the action from media types in
 any case

---
 soapfish/soap12.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap12.py b/soapfish/soap12.py
index fe58c96..328668c 100644
--- a/soapfish/soap12.py
+++ b/soapfish/soap12.py
@@ -11,7 +11,8 @@ NAME = 'soap12'
 # --- Functions ---------------------------------------------------------------
 def determine_soap_action(request):
     ct, cp = cgi.parse_header(request.environ.get('CONTENT_TYPE') or '')
-    return cp.get('action') if ct == CONTENT_TYPE else None
+    # Names of media types are not case-sensitive.
+    return cp.get('action') if ct.lower() == CONTENT_TYPE else None
 
 
 def build_http_request_headers(soapAction):
-- 
2.43.0


From 0d0a4bf98f9f3387e8ac4b8e828c2e39849d65ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:01 +0000
Subject: [PATCH 092/100] fix: documents are parsed to objects and rendered in
 their namespace

---
 soapfish/xsd.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 38ea18b..2e0b563 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1146,15 +1146,20 @@ class Document(ComplexType):
         field = self._meta.fields[0]  # The only field.
         mockelement = Document.MockElement()
         instance = getattr(self, field._name)
-        field.render(mockelement, field._name, instance, self.NAMESPACE)
-        return etree.tostring(mockelement.element, pretty_print=True)
+        tagname = field.tagname or field._name
+        if self.NAMESPACE:
+            tagname = f'{{{self.NAMESPACE}}}{tagname}'
+        field.render(mockelement, tagname, instance, self.NAMESPACE)
+        return etree.tostring(mockelement.element, pretty_print=True, encoding='utf-8')
 
     # TODO: Add schema support.
     @classmethod
     def parsexml(cls, xml):
         field = cls._meta.fields[0]  # The only field.
         xmlelement = etree.fromstring(xml)
-        field.parse(cls, field._name, xmlelement)
+        instance = cls()
+        field.parse(instance, field._name, xmlelement)
+        return instance
 
 
 class List(SimpleType):
-- 
2.43.0


From 923470cccc7d85f371b528d743ee0ddad9d795c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:37 +0000
Subject: [PATCH 093/100] fix: remote documents which do not exist are errors

---
 soapfish/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 325d672..e95b1c4 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -32,7 +32,9 @@ def resolve_location(path, cwd):
 def open_document(path):
     if '://' in path:
         logger.info('Opening remote document: %s', path)
-        return requests.get(path).content
+        response = requests.get(path)
+        response.raise_for_status()
+        return response.content
     else:
         logger.info('Opening local document: %s', path)
         with open(path, 'rb') as f:
-- 
2.43.0


From 431d8e59e25daf69f4ba5c47b9bc90ecc831ac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:12 +0000
Subject: [PATCH 094/100] fix: SOAP 1.2 calls of operations without an action

---
 soapfish/soap12.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap12.py b/soapfish/soap12.py
index 328668c..5477837 100644
--- a/soapfish/soap12.py
+++ b/soapfish/soap12.py
@@ -16,7 +16,8 @@ def determine_soap_action(request):
 
 
 def build_http_request_headers(soapAction):
-    return {'Content-Type': CONTENT_TYPE + f'; action="{soapAction}"'}
+    # Operations without an action are found by the message.
+    return {'Content-Type': CONTENT_TYPE + f'; action="{soapAction}"' if soapAction else CONTENT_TYPE}
 
 
 def get_error_response(code, message, actor=None, header=None):
-- 
2.43.0


From db32605fa29eddaf4f29b9aab77cfeb18dacf98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:35 +0000
Subject: [PATCH 095/100] fix: requests with a member of a member of a
 substitution group

---
 soapfish/soap_dispatch.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index f6ddcfd..7f19557 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -93,7 +93,7 @@ class SOAPDispatcher:
                 method = next(m for m in self.service.methods if m.soapAction == action)
             except StopIteration as e:
                 raise SOAPError(SOAP.Code.CLIENT, f'Invalid SOAP action: {action}') from e
-            if isinstance(method.input, str) and method.input not in (root_tag, self._substitution_head(root_tag)):
+            if isinstance(method.input, str) and method.input not in (root_tag, *self._substitution_heads(root_tag)):
                 raise SOAPError(SOAP.Code.CLIENT, f'Invalid root tag for SOAP action {action}: {root_tag}')
             return method
 
@@ -104,15 +104,22 @@ class SOAPDispatcher:
             except StopIteration:
                 pass  # fall through and check for substitution group element
             try:
-                head = self._substitution_head(root_tag)
-                return next(m for m in self.service.methods if head and m.input == head)
+                return next(m for head in self._substitution_heads(root_tag) for m in self.service.methods if m.input == head)
             except StopIteration as e:
                 raise SOAPError(SOAP.Code.CLIENT, f'Missing SOAP action and invalid root tag: {root_tag}') from e
 
-    def _substitution_head(self, root_tag):
+    def _substitution_heads(self, root_tag):
         # FIXME: Improve handling of namespaces to be less hacky...
+        heads = []
         element = self.service.find_element_by_name(root_tag)
-        return element.substitutionGroup.split(':')[-1] if element is not None and element.substitutionGroup else None
+        while element is not None and element.substitutionGroup:
+            head = element.substitutionGroup.split(':')[-1]
+            if head in heads:
+                break
+            # A head might be a member of another group itself.
+            heads.append(head)
+            element = self.service.find_element_by_name(head)
+        return heads
 
     def _parse_header(self, handler, soap_header):
         # TODO return soap fault if header is required but missing in the input
-- 
2.43.0


From 27a518aaf2ba0dd1c04c74b17b1f484068a68425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:10 +0000
Subject: [PATCH 096/100] fix: order the schemas of a WSDL by their imports

---
 soapfish/wsdl2py.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 012d9e0..44de659 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python
 
 import argparse
-import collections
 import logging
 import os
 import re
@@ -20,18 +19,22 @@ logger = logging.getLogger('soapfish')
 
 # --- Helpers -----------------------------------------------------------------
 def reorder_schemas(schemas):
-    schemas, targets, counter, x = [], set(), len(schemas), collections.deque(schemas)
-    while x and counter > 0:
-        counter -= 1
-        schema = x.popleft()
+    """Reorder schemas so that each one comes after the schemas which it imports."""
+    ordered, visited = [], set()
+
+    def visit(schema):
+        if id(schema) in visited:
+            return
+        visited.add(id(schema))
         namespaces = {i.namespace for i in schema.imports}
-        if x and namespaces and namespaces - targets:
-            x.append(schema)
-        else:
-            schemas.append(schema)
-            targets.add(schema.targetNamespace)
-    schemas.extend(x)  # always add remaining unorderable schemas...
-    return schemas
+        for other in schemas:
+            if other.targetNamespace in namespaces:
+                visit(other)
+        ordered.append(schema)
+
+    for schema in schemas:
+        visit(schema)
+    return ordered
 
 
 def find_schema_namespaces(xml, definitions):
-- 
2.43.0


From facaa9414d788f35af62e1fa2335723415d38355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:51 +0000
Subject: [PATCH 097/100] fix: order of types which have the names of built-in
 ones

---
 soapfish/xsd2py.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 6cedfea..dcecf91 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -140,15 +140,21 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
     return code.encode(encoding) if encoding else code
 
 
-def _reorder_types(types, get_base):
+def _reorder_types(types, get_base, xsd_namespaces):
     """Reorder types so that the base of an extension/restriction is rendered before the types derived from it."""
+    def get_pending_base(item):
+        qname = get_base(item)
+        # Types might have the names of those which are built into XSD.
+        builtin = qname and (qname.split(':')[0] if ':' in qname else None) in xsd_namespaces
+        return None if builtin else pending.get(remove_namespace(qname))
+
     pending = {remove_namespace(t.name): t for t in types}
     ordered = []
 
     def visit(item):
         if pending.pop(remove_namespace(item.name), None) is None:
             return
-        base = pending.get(remove_namespace(get_base(item)))
+        base = get_pending_base(item)
         if base is not None:
             visit(base)
         ordered.append(item)
@@ -177,8 +183,8 @@ def schema_to_py(schema, xsd_namespaces,
     if base_path:
         rewrite_paths(schema, cwd, base_path)
 
-    _reorder_types(schema.simpleTypes, _get_simpleType_base)
-    _reorder_types(schema.complexTypes, _get_complexType_base)
+    _reorder_types(schema.simpleTypes, _get_simpleType_base, xsd_namespaces)
+    _reorder_types(schema.complexTypes, _get_complexType_base, xsd_namespaces)
 
     if known_paths is None:
         known_paths = []
-- 
2.43.0


From 994391a4088c36e8cf6ec6346d2020223ddc9fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:49 +0000
Subject: [PATCH 098/100] fix: copies of objects which have nil values

---
 soapfish/xsd.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 2e0b563..ad5d5ec 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -45,7 +45,17 @@ from .xsd_types import XSDDate
 
 logger = logging.getLogger(__name__)
 
-NIL = object()
+
+class _Nil:
+    def __repr__(self):
+        return 'NIL'
+
+    def __reduce__(self):
+        # There is only one, also for copies of the objects which use it.
+        return 'NIL'
+
+
+NIL = _Nil()
 UNBOUNDED = decimal.Decimal('infinity')
 WHITESPACE = ' \t\r\n'  # Other characters are not whitespace in XML.
 
-- 
2.43.0


From f18acb18866194a6cf1d77a289101300815a4c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:39 +0000
Subject: [PATCH 099/100] fix: concurrent validation of rendered documents

---
 soapfish/xsd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index ad5d5ec..87314f5 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -59,7 +59,10 @@ NIL = _Nil()
 UNBOUNDED = decimal.Decimal('infinity')
 WHITESPACE = ' \t\r\n'  # Other characters are not whitespace in XML.
 
-assert_valid = synchronized(etree.XMLSchema.assertValid)  # The error log is shared by all threads.
+
+@synchronized  # The error log is shared by all threads.
+def assert_valid(schema, xmlelement):
+    schema.assertValid(xmlelement)
 
 
 class CallStyle(str, enum.Enum):
@@ -1121,7 +1124,7 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         xmlelement = etree.Element(tagname)
         self.render(xmlelement, self, namespace, elementFormDefault)
         if schema is not None:
-            schema.assertValid(xmlelement)
+            assert_valid(schema, xmlelement)
         # The default encoding (ASCII) does not work for the names of elements and attributes.
         return etree.tostring(xmlelement, pretty_print=pretty_print, encoding='utf-8')
 
-- 
2.43.0


From 199e144b2987396c6e997caceed143a2da1e5c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:56 +0000
Subject: [PATCH 100/100] fix: WSGI requests whose content length is no number

---
 soapfish/soap_dispatch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 7f19557..13343e5 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -281,7 +281,9 @@ class WsgiSoapApplication:
         self.dispatcher = dispatcher
 
     def __call__(self, req_env, start_response, wsgi_url=None):
-        content_length = int(req_env.get('CONTENT_LENGTH', '') or 0)
+        # Anything else than a number is no length, not all servers refuse such requests.
+        content_length = str(req_env.get('CONTENT_LENGTH') or '').strip()
+        content_length = int(content_length) if re.fullmatch('[0-9]+', content_length) else 0
         content = req_env['wsgi.input'].read(content_length)
         soap_request = SOAPRequest(req_env, content)
         response = self.dispatcher.dispatch(soap_request)
-- 
2.43.0


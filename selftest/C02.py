M=[("V","range-ignores-stop",[("src/common/circular_buffer_range.h","      if (!callback(*iter)) {\n        return false;\n      }","      callback(*iter);")])]

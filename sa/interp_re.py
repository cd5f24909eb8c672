import re
IMPURE_STD = re.compile(r'^(std::)?(rand|srand|time|clock|getenv|system|exit|abort|terminate|'
                        r'f?printf|fwrite|fputs|fputc|putc|fopen|fclose|fflush|puts|remove|rename|'
                        r'fread|fscanf|signal|quick_exit|_Exit|perror|scanf|feenableexcept|feclearexcept|'
                        r'fetestexcept|feraiseexcept|feholdexcept|open|close|write|read|unlink|sigaction)$|^std::filesystem::(rename|remove|create|copy|resize|'
                        r'remove_all|create_directories|create_directory)|^std::chrono::.*::now$|random_device|'
                        r'^std::this_thread|^std::(uniform|normal|exponential|poisson|discrete|piecewise|cauchy|gamma).*::operator\(\)')

�±����ɲ���Þ������ֵޝ�� ʨ��؜��(���������2
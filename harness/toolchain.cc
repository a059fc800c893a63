int main() {}
